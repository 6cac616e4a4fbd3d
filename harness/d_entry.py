"""Driver for the parameters entry point."""
import argparse
import contextlib
import io
import json
import logging
import os
import sys

from d_paramload import Env, dump, own_tree, shuffled
from paramlib import *

from vistautils import parameters_only_entrypoint as pe
from vistautils.parameters import ParameterError

FILES = ["f", "f.params", "other.params", "bad.params", "dir", "missing.params", "with space.params"]


class MainFailed(Exception):
    pass


# a program may fail in the ways in which what calls it does
FAILURES = [MainFailed, MainFailed, lambda: ParameterError("missing"), lambda: SystemExit(3), lambda: SystemExit(0), lambda: FileNotFoundError(2, "no such file"), lambda: KeyError("a"),
            lambda: TypeError("wrong"), lambda: TypeError("main() missing 1 required positional argument: 'params'"), lambda: TypeError("main() takes 0 positional arguments but 1 was given"), lambda: ValueError("wrong"), lambda: RuntimeError("wrong"), lambda: argparse.ArgumentError(None, "wrong"), StopIteration, GeneratorExit]


def run(w, root, rec, sup, texts):
    rnd = w.rnd
    for path, text in texts.items():
        f = os.path.join(root, *path)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w", encoding="utf-8") as o:
            o.write(text)
    calls, raised = [], []

    def main(*args, **kw):
        try:
            tree = entries_of(args[0]) if len(args) == 1 and not kw else [dict(p=["not one argument"], t="str", v="", n=0)]
        except Exception:
            tree = [dict(p=["no parameters"], t="str", v=repr(args)[:80], n=0)]
        calls.append(dict(tree=tree, level=logging.getLogger().level))
        if rec["main"] == "raises":
            raised.append(rnd.choice(FAILURES)())
            raise raised[0]
        return rnd.choice([None, 5])
    args = [t["s"] for t in rec["line"]]
    kw = {}
    if rec["supplied"]:
        kw["parameters"] = sup
    if rnd.random() < 0.7:
        kw["program_name"] = "prog"
    a = [main] + ([rnd.choice(["usage", None])] if rnd.random() < 0.5 else [])
    z = rnd.random()
    root_logger = logging.getLogger()
    had, level, disabled = list(root_logger.handlers), root_logger.level, logging.root.manager.disable
    root_logger.setLevel(rnd.choice([logging.WARNING, logging.DEBUG, logging.CRITICAL]))
    logging.disable(logging.NOTSET)
    argv = sys.argv
    out = io.StringIO()

    def go():
        with Env(dict(rec["env"])), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            if z < 0.4 or not hasattr(pe, "_real_parameters_only_entry_point"):
                sys.argv = ["prog"] + args
                return pe.parameters_only_entry_point(*a, **kw)
            return pe._real_parameters_only_entry_point(*a, args=args, **kw)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        r = w.call(go)
    finally:
        os.chdir(cwd)
        sys.argv = argv
        for h in list(root_logger.handlers):
            if h not in had:
                root_logger.removeHandler(h)
        root_logger.setLevel(level)
        logging.disable(disabled)
    rec["ended"] = "ok" if r[0] == "ok" else "hang" if r[0] == "hang" else "main's" if raised and r[2] is raised[0] else "exit" if isinstance(r[2], SystemExit) else "err"
    rec["calls"] = calls
    if rec["supplied"]:
        after = entries_of(sup)
        if sorted(map(json.dumps, after)) != sorted(map(json.dumps, rec["sup"])):
            w.mismatch("running changed the parameters the program brought", record=rec)
    w.record(rec)
    return rec


def file_of(own, incs=(), ok=True):
    return dict(ok=ok, incok=True, incs=list(incs), own=entries(own))


VALUES = ["x", "", "5", "0", "true", "null", "~", "1.5", "[1, 2]", "{a: b}", "%a%", "%name%", "a b", "é", "a: b", "# c", "yes", "two\nlines", "'q'", "-1", "-2.5", "INFO", "=", "a=b", "*", "%", "word", " x", "x ", " ", "\ttabbed\t", "ends\n", "\u2003wide\u2003", "\n", "A B  C", "$ENV", "${ENV}/x", "$HOME", "~/x", "~root", "%ENV%", "$$", "`ls`", "$(ls)", "*.params", "@f", "!x", "&a", "0x10", "1e3", "1_000", "2020-01-01", "\\n", "{0}", "%s", "%(a)s"]


def entry_record(w):
    rnd = w.rnd
    root = w.scratch("runs")
    os.makedirs(os.path.join(root, "dir"), exist_ok=True)
    loaded = {"a": "one", "f": {"b": "two"}}
    brought = {"a": {"b": "three"}, "logging": {"root_level": "DEBUG"}}
    for c in w.input["cases"]:
        w.doing(c)
        rec = dict(line=c["line"], supplied=c["supplied"], sup=entries(brought) if c["supplied"] else [], files=[dict(file_of(loaded), path=["f"])], dirs=[[], ["dir"]],
                   words=[dict(s="f", path=["f"])], env=[], main=rnd.choice(["ok", "ok", "raises"]))
        run(w, root, rec, Parameters.from_mapping(brought), {("f",): dump(rnd, loaded)})
        if bool(rec["calls"]) != c["called"]:
            w.mismatch("running with %s: specification says %s, code gives %d calls" % ([t["s"] for t in c["line"]], "called" if c["called"] else "not called", len(rec["calls"])), record=rec)
            if w.full():
                return
    for n in range(w.input["random"]):
        names = rnd.choice([["a", "b", "c"], ["a", "b", "name", "x-1", "logging"], ["a", "é", "0", "b c"], ["a", " a", "a ", "A"], ["b", "B", "\u00e9", "e\u0301"], ["$a", "a:", "#a", "%a%"]])
        env = {}
        if rnd.random() < 0.4:
            env = {"ENV": "envval", "a": "fromenv", "HOME": "/home"}

        nulls = rnd.random() < 0.1

        def tree():
            t = own_tree(rnd, [k for k in names if k != "logging" or rnd.random() < 0.2], rnd.randint(0, 2), rnd.randint(0, 6), [("ENV",)] if env else [], null=nulls, refs=rnd.choice([0, 0, 0.3]))
            if rnd.random() < 0.25:
                t["logging"] = rnd.choice([{"root_level": rnd.choice(["DEBUG", "ERROR", "WARN", "FATAL", "CRITICAL", "INFO", "WARNING", "info", "", 10, None, "NOTSET"])}, {}, {"other": 1}, "leaf"])
            return t
        own = tree()
        files = {("p%d.params" % (n % 3),): own}
        top = list(files)[0]
        fs, texts, words = [], {}, []
        incs = []
        if rnd.random() < 0.2 and not nulls and not any(v is None for _, v in pairs_of(own)):
            beneath = tree()
            incs = [dict(abs=False, path=["sub", "inc.params"])]
            fs.append(dict(file_of(beneath), path=["sub", "inc.params"]))
            texts[("sub", "inc.params")] = dump(rnd, beneath)
        fs.append(dict(file_of(own, incs), path=list(top)))
        texts[top] = dump(rnd, dict(own, _includes=["sub/inc.params"]) if incs else own)
        if rnd.random() < 0.06:
            fs[-1]["ok"] = False
            texts[top] = rnd.choice(["[1, 2]", "a: [", "text", "1: 2", "a: b: c"])
        word = rnd.choice([top[0], "./" + top[0], os.path.join(root, top[0])])
        words.append(dict(s=word, path=list(top)))
        supplied = rnd.random() < 0.25
        sup = {}
        if supplied:
            sup = tree() if rnd.random() < 0.9 else {}
        base = sup if supplied else own
        known = [".".join(p) for p, _ in pairs_of(base)] or ["a"]
        blocks = [] if supplied and rnd.random() < 0.9 else [[dict(k="word", s=word if rnd.random() < 0.95 else rnd.choice(["missing.params", "dir"]))]]
        many = rnd.choice([0, 1, 1, 2, 3, 5] + ([12, 20] if n % 9 == 0 else []))
        for _ in range(many):
            z = rnd.random()
            if many > 5:
                name = rnd.choice([k for k in known if "logging" not in k][:8] or ["a"])
            elif z < 0.45:
                name = rnd.choice(known)
            elif z < 0.7:
                name = ".".join(rnd.choice(names + ["new"]) for _ in range(rnd.choice([1, 1, 2, 3])))
            elif z < 0.85 and blocks and len(blocks[-1]) == 3:
                name = blocks[-1][1]["s"]
            elif z < 0.95:
                name = rnd.choice(known).rsplit(".", 1)[0] + "." + rnd.choice(["new", "a", "deep.er"])
            else:
                name = rnd.choice(["logging.root_level", "logging.root_level", "", "logging"])
            value = rnd.choice(["DEBUG", "ERROR", "nonsense", "debug"]) if name == "logging.root_level" else rnd.choice(VALUES)
            blocks.append([dict(k="p", s="-p"), dict(k="word", s=name), dict(k="word", s=value)])
        rnd.shuffle(blocks)
        line = [t for b in blocks for t in b]
        if rnd.random() < 0.12 and line:
            z = rnd.random()
            if z < 0.4:
                del line[rnd.randrange(len(line))]
            elif z < 0.6:
                line.append(dict(k="p", s="-p"))
            elif z < 0.8:
                line.insert(rnd.randint(0, len(line)), dict(k="dash", s=rnd.choice(["-x", "--param", "-h", "-q"])))
            else:
                line.insert(rnd.randint(0, len(line)), dict(k="word", s="extra"))
        rec = dict(line=line, supplied=supplied, sup=entries(sup), files=fs, dirs=[[], ["dir"], ["sub"]], words=words, env=[[k, v] for k, v in env.items()],
                   main="raises" if rnd.random() < 0.2 else "ok")
        w.doing(rec)
        run(w, root, rec, Parameters.from_mapping(sup), texts)
