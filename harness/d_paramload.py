"""Drivers for loading parameters: references, inclusion."""
import json
import os
import re
from pathlib import Path

from paramlib import *

import yaml


class Env:
    """The environment variables as given, and no others, and a working directory."""

    def __init__(self, values, cwd=None):
        self.values, self.cwd = values, cwd

    def __enter__(self):
        self.old = dict(os.environ)
        self.here = os.getcwd()
        os.environ.clear()
        os.environ.update(self.values)
        if self.cwd:
            os.chdir(self.cwd)

    def __exit__(self, *_):
        os.chdir(self.here)
        os.environ.clear()
        os.environ.update(self.old)


def shuffled(rnd, nested):
    ks = list(nested)
    rnd.shuffle(ks)
    return {k: shuffled(rnd, nested[k]) if isinstance(nested[k], dict) else nested[k] for k in ks}


def dump(rnd, data):
    z = rnd.random()
    if z < 0.4:
        return json.dumps(data, ensure_ascii=False, indent=rnd.choice([None, 1]))
    if z < 0.7:
        return yaml.safe_dump(data, allow_unicode=True, default_flow_style=False, sort_keys=False)
    return yaml.safe_dump(data, default_flow_style=rnd.choice([None, True, False]), sort_keys=rnd.random() < 0.5)


def from_entries(es):
    out = {}
    for e in sorted(es, key=lambda e: len(e["p"])):
        d = out
        for k in e["p"][:-1]:
            d = d[k]
        t, v = e["t"], e["v"]
        d[e["p"][-1]] = {} if t == "ns" else int(v) if t == "int" else v
    return out


def load(w, root, rec, texts, ctx_nested, env, enabled, from_string):
    """Write the files, load, and fill in the record."""
    rnd = w.rnd
    for path, text in texts.items():
        f = os.path.join(root, *path)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as o:
            o.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    ctx = to_params(rnd, ctx_nested) if ctx_nested else (None if rnd.random() < 0.8 else Parameters.empty())
    loader = YAMLParametersLoader(interpolate_environmental_variables=enabled) if not enabled or rnd.random() < 0.3 else YAMLParametersLoader()
    kw = {}
    z = rnd.random()
    if rnd.random() < 0.1:
        kw["namespace_path"] = rnd.choice([["p"], ("p", "q")])

    # the working directory: some other one, one with files where relative includes could be looked for by mistake,
    # or one from which the file to load is named
    f = os.path.join(root, *rec["toppath"])
    cwd = None
    if rec["files"]:
        y = rnd.random()
        if y < 0.4:
            cwd = decoys(w, rec["files"], root)
        elif y < 0.6:
            cwd = os.path.join(root, *rnd.choice(rec["dirs"]))
            if os.path.isdir(cwd):
                f = rnd.choice(["", "./"]) + os.path.relpath(f, cwd)
            else:
                cwd = None

    def go():
        nonlocal f
        with Env(env, cwd):
            if from_string is not None:
                if ctx is not None:
                    kw["included_context"] = ctx
                return loader.load_string(from_string, **kw)
            f = Path(f) if rnd.random() < 0.5 else f
            if ctx is not None and z < 0.3:
                return loader.load(f, ctx, **kw)
            if ctx is not None and z < 0.5:
                return loader.load(f, context=ctx, **kw)
            if ctx is not None:
                kw["included_context"] = ctx
            return loader.load(f, **kw)
    r = w.call(go)
    res, out = (r[0] if r[0] in ("ok", "hang") else r[1]), []
    if res == "ok":
        try:
            out = entries_of(r[1])
        except Exception:
            res = "no parameters: %r" % (r[1],)
    rec.update(res=res, out=out, ctx=entries(ctx_nested), ctx2=entries_of(ctx) if ctx is not None else [],
               env=[[k, v] for k, v in env.items()] if enabled else [])
    del rec["toppath"]
    w.record(rec)
    return rec


LITS = ["x", "-", "%", "% ", "100%", " ", "é", ":", "a", "%%", "%b", "b%", "a b", "%a b%", "\n", "50% of ", "\U0001f600", "$HOME", "{", "'", "\\n", "\\1", "\\g<0>", "\\", "\\\\", "$1", "{}", "&"]
ODD = ["%.a%", "%a.%", "%a..b%", "%-%", "%é%", "%a.b.c.d%", "%_%", "%0%", "%nosuch%", "%a%b%c%"]


def ref_string(rnd, targets):
    def ref():
        if rnd.random() < 0.06:
            return rnd.choice(ODD)
        return "%" + ".".join(rnd.choice(targets)) + "%" if targets else "%zz%"
    z = rnd.random()
    if z < 0.4:
        return ref()
    if z < 0.5:
        return rnd.choice(LITS)
    return "".join(ref() if rnd.random() < 0.5 else rnd.choice(LITS) for _ in range(rnd.randint(1, 4)))


def skeleton(rnd, names, depth, n):
    """Paths of leaves, as a tree with None leaves"""
    t = {}
    for _ in range(n):
        d = t
        for _ in range(rnd.randint(0, depth)):
            k = rnd.choice(names)
            if k in d and not isinstance(d[k], dict):
                break
            d = d.setdefault(k, {})
        k = rnd.choice(names)
        if k not in d:
            d[k] = None
    return t


def leaf_paths(t, path=()):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            out += leaf_paths(v, path + (k,))
        else:
            out.append(path + (k,))
    return out


def ns_paths(t, path=()):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            out.append(path + (k,))
            out += ns_paths(v, path + (k,))
    return out


def put(t, path, v):
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v


def plain(rnd, null):
    return rnd.choice(["v", "", 0, 1, False, True, 2.5, 0.0, [], ["%a%", 1], [{"a": "%b%"}], "w w", "100%", "\\1", "c:\\new\\g<0>", "\\", "a\nb", "{x}", "$a", "&"] + ([None] if null else []))


def own_tree(rnd, names, depth, n, outside, null=False, refs=0.6):
    """A tree with references: mostly to parameters earlier in some order (so without cycles), and to outside ones"""
    t = skeleton(rnd, names, depth, n)
    order = leaf_paths(t)
    rnd.shuffle(order)
    loops = rnd.random() < 0.25
    for i, p in enumerate(order):
        if rnd.random() < refs:
            targets = [q for q in (order if loops else order[:i])] * 3 + list(outside)
            if rnd.random() < 0.12:
                targets += ns_paths(t)
            put(t, p, ref_string(rnd, targets))
        else:
            put(t, p, plain(rnd, null))
    return shuffled(rnd, t)


def interp_record(w):
    rnd = w.rnd
    root = w.scratch("load")
    nofile = dict(files=[], dirs=[[]], dir=[], stack=[])
    n = 0

    def one(own, ctx, env, enabled):
        text = dump(rnd, own)
        rec = dict(nofile, toppath=["t%d.params" % (n % 5)], top=dict(ok=True, incok=True, incs=[], own=entries(own)))
        if rnd.random() < 0.5:
            return load(w, root, rec, {}, ctx, env, enabled, text)
        return load(w, root, rec, {tuple(rec["toppath"]): text}, ctx, env, enabled, None)
    for c in w.input["cases"]:
        n += 1
        w.doing(c)
        rec = one(shuffled(rnd, from_entries(c["own"])), from_entries(c["ctx"]), dict(a="enva", e="enve"), True)
        if not c["skip"] and c["failed"] != (rec["res"] != "ok"):
            w.mismatch("loading %s with context %s: specification says %s, code gives %s" % (c["own"], c["ctx"], "failure" if c["failed"] else "success", rec["res"]), case=rec)
    for _ in range(w.input["random"]):
        n += 1
        names = rnd.choice([["a", "b"], ["a", "b", "c", "d"], ["a", "b", "c", "d", "e", "f", "g"], ["a-b", "x_1", "0", "é", "B", "a"],
                            ["corpus_directory", "model_path", "output_directory", "a"], ["directory", "a"]])
        depth = rnd.randint(0, 3)
        ctx, env = {}, {}
        null = rnd.random() < 0.1
        if rnd.random() < 0.5:
            ctx = own_tree(rnd, names + ["ctx"], depth, rnd.randint(0, 5), [("a",)], null, refs=0.15)
        if rnd.random() < 0.5:
            for _ in range(rnd.randint(0, 4)):
                env[rnd.choice(names + ["ENV", "odd.name", "a.b"])] = rnd.choice(["envval", "", "%a%", "1", "x y", "\\n\\1", "a:b", "{}", "$a"])
        if n % 400 == 7:     # a crowded environment
            env.update(("J%02d" % i, "j%d" % i) for i in range(80))
        outside = leaf_paths(ctx) + [(k,) for k in env] + [(k,) for k in names][:1]
        if rnd.random() < 0.1:
            outside += ns_paths(ctx)
        own = own_tree(rnd, names, depth, rnd.randint(0, 7), outside, null)
        if rnd.random() < 0.03:
            put(own, (rnd.choice(["a.b", ".", "a.", ".x"]),), 1)
        w.doing((own, ctx, env))
        one(own, ctx, env, rnd.random() < 0.7)
    # many references, and long stretches without any
    for k in [16, 17, 21, 33]:
        n += 1
        one(shuffled(rnd, dict(a="v", b="<%a%>", n=dict(a="w"),
                               s="".join(rnd.choice(["%a%", "%b%", "%n.a%", "%ctx%"]) + rnd.choice(["", " ", "%%", "x"]) for _ in range(k)),
                               t="x" * (k * 2) + "%a%" + " % " * (k // 3) + "%n.a%")), dict(ctx="c"), {}, True)
    n += 1
    one({"a": "v", "s": "%a%" * 70}, {}, {}, True)
    # long chains, in any order
    for k in w.input["chains"]:
        n += 1
        deep = rnd.random() < 0.6
        at = {x + "%d" % i: (rnd.choice([(), (), ("n",), ("n", "m"), ("k",), ("n", "m", "o")]) if deep else ()) + (x + "%d" % i,)
              for i in range(k) for x in "pq"}
        if deep and rnd.random() < 0.5:
            # all but the ends in one place
            for i in range(1, k - 1):
                at["p%d" % i] = ("n", "m", "p%d" % i)
        ref = {x: "%%%s%%" % ".".join(q) for x, q in at.items()}
        own = {}

        def give(name, v):
            d = own
            for c in at[name][:-1]:
                d = d.setdefault(c, {})
            d[at[name][-1]] = v
        for i in range(1, k):
            give("p%d" % i, rnd.choice(["%s", "x%s", "%sy"]) % ref["p%d" % (i - 1)])
            give("q%d" % i, ref["q%d" % (i - 1)])
        give("p0", ref["p%d" % rnd.randint(0, k - 1)] if rnd.random() < 0.2 else "end")
        give("q0", rnd.choice([0, 2.5, [1], False]))
        one(shuffled(rnd, own), {}, {}, True)


def tokens_replay(w):
    """Every small string, read as parts: references to parameters whose value is their own name in brackets"""
    for c in w.input["cases"]:
        s = c["s"]
        w.doing(c)
        names = [t[1:-1] for r, t in c["parts"] if r]
        own = {}
        fails = False
        for nm in names:
            parts = nm.split(".")
            d = own
            if any(p == "" for p in parts):
                fails = True
                break
            for p in parts[:-1]:
                d = d.setdefault(p, {})
                if not isinstance(d, dict):
                    break
            if not isinstance(d, dict) or isinstance(d.get(parts[-1]), dict):
                own = None
                break
            d[parts[-1]] = "<" + nm + ">"
        if own is None:
            continue
        own["string"] = s
        r = w.call(lambda: YAMLParametersLoader(interpolate_environmental_variables=False).load_string(json.dumps(own)).string("string"))
        want = "".join("<" + t[1:-1] + ">" if r_ else t for r_, t in c["parts"])
        if fails:
            if r[0] == "ok":
                w.mismatch("interpolating %r: a reference to no parameter gave %r" % (s, r[1]), case=c)
        elif r[0] != "ok" or r[1] != want:
            w.mismatch("interpolating %r: specification says %r, code gives %r" % (s, want, r[1]), case=c)


# ---------------------------------------------------------------- inclusion
def decoys(w, files, root):
    """A working directory with other files of the names which are included."""
    top = os.path.join(root, "..decoys")
    cwd = os.path.join(top, *"wwwwwwww")
    os.makedirs(cwd, exist_ok=True)
    for f in files:
        for inc in f["incs"]:
            if not inc["abs"]:
                q = os.path.normpath(os.path.join(cwd, *inc["path"]))
                try:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "w") as o:
                        o.write(w.rnd.choice(["decoy: 1\n", "a: decoy\n", "- x\n"]))
                except OSError:
                    pass
    return cwd


BAD_INCLUDES = ["string", {"a": 1}, 5, True, None, "", [5], [None], [["x"]], [""], 0, {}, 2.5, False]
BAD_FILES = ["- a\n- b\n", "just text", "a: [1\n", "1: x\n", "a: {1: 2}\n", "", "a: {b: {null: 1}}\n", b"\xff\xfe\x00a: 1", "5", "null", "a: b: c", "\t- x", "{a: 1", "true: 1\n"]


def render(root, inc, rnd):
    q = list(inc["path"])
    if inc["abs"]:
        return os.path.join(root, *q)
    s = "/".join(q)
    return s if rnd.random() < 0.8 else "./" + s


def write_includes(w, root, spec, own, texts, path, rnd, bad_include):
    """text of a file with the given includes"""
    data = shuffled(rnd, own)
    if spec["incs"] or not spec["incok"] or rnd.random() < 0.1:
        inc = bad_include if not spec["incok"] else [render(root, i, rnd) for i in spec["incs"]]
        items = list(data.items())
        items.insert(rnd.randint(0, len(items)), ("_includes", inc))
        data = dict(items)
    return dump(rnd, data)


def include_record(w):
    rnd = w.rnd
    n = 0

    def newroot():
        # one directory per case, so that nothing is left over from another
        root = w.scratch("inc/%06d" % n)
        return root
    for c in w.input["cases"]:
        n += 1
        root = newroot()
        w.doing(c)
        texts = {tuple(f["path"]): write_includes(w, root, f, from_entries(f["own"]), None, None, rnd, None) for f in c["files"]}
        top = c["files"][0]
        rec = dict(files=c["files"], dirs=[[], ["t"], ["t", "d"]], dir=["t"], stack=[top["path"]],
                   top=top, toppath=top["path"])
        rec = load(w, root, rec, texts, dict(all="ctx", given="g"), {}, False, None)
        if c["failed"] != (rec["res"] != "ok"):
            w.mismatch("loading a file of %s: specification says %s, code gives %s" % ([(f["path"], f["incs"]) for f in c["files"]], "failure" if c["failed"] else "success", rec["res"]), case=rec)
        clean(root)
    for _ in range(w.input["random"]):
        n += 1
        root = newroot()
        dirs = [[]]
        odd = rnd.random() < 0.4
        for _ in range(rnd.randint(0, 4)):
            d = rnd.choice(dirs) + [rnd.choice(["d", "e", "a b", "x.y"] + (["$E", "~", "${a}", "*", "d#1", "%a", "E", " d", "d ", "~root", "\\d", "d\u00e9", "de\u0301"] if odd else []))]
            if d not in dirs:
                dirs.append(d)
        paths = []
        for k in range(rnd.randint(1, 6)):
            # names of files are names, whatever they look like
            p = rnd.choice(dirs) + [rnd.choice(["f%d.params", "g%d", "f %d.yaml"] + (["$E%d", "${E}%d", "$E.%d.params", "~%d", "f*%d", "f#%d", " f%d", "f%d ", "%%a%d", "F%d.PARAMS", "f\u00e9%d", "f[%d]", "a:%d", "-f%d", "f%d\\", "http:%d"] if odd else [])) % k]
            paths.append(p)
        if rnd.random() < 0.3:
            # of one name, in different directories
            paths = [d + [paths[0][-1]] for d in rnd.sample(dirs, len(dirs))] + paths[1:3]
            paths = [p for i, p in enumerate(paths) if p not in paths[:i]]
        samesize = rnd.random() < 0.4      # and of one size
        names = ["a", "b", "c", "d"]
        # half of the cases are meant to load: the same names are namespaces everywhere, and references go to what is known
        tame = rnd.random() < 0.5
        loops = not tame and rnd.random() < 0.06
        files, texts = [], {}
        before = {}
        for k, p in enumerate(paths):
            cands = paths if loops else paths[k + 1:]
            incs = []
            known = list(before.get(k, []))
            for _ in range(rnd.choice([0, 1, 1, 2, 3] + [2, 3] * tame) if cands else 0):
                target = rnd.choice(cands)
                incs.append(include_of(rnd, p[:-1], target, dirs))
                before.setdefault(paths.index(target), []).extend(known)
                known.append(paths.index(target))
            if not tame and rnd.random() < 0.04:
                incs.append(include_of(rnd, p[:-1], rnd.choice(dirs) + ["missing.params"], dirs))
            if not tame and rnd.random() < 0.02:
                incs.append(dict(abs=False, path=["nodir", "..", p[-1]]))
            if tame:
                own = tame_tree(rnd, 2)
                own["only%d" % k] = rnd.choice(["x%d" % k, k, ["l%d" % k, "%a%"], "<%a%>" if "a" in own and "%" not in str(own["a"]) else "y"])
                if known and rnd.random() < 0.6:
                    own["seen%d" % k] = "%%only%d%%" % rnd.choice(known)
            else:
                own = own_tree(rnd, names, rnd.randint(0, 2), rnd.randint(0, 4), [(x,) for x in names] if rnd.random() < 0.6 else [], refs=0.3)
                own["only%d" % k] = rnd.choice(["x", 1, "%a%" if rnd.random() < 0.2 else "y"])
                if rnd.random() < 0.2 and k + 1 < len(paths):
                    own["seen%d" % k] = "%%only%d%%" % rnd.randint(k + 1, len(paths) - 1)
            if tame and rnd.random() < 0.15:
                own = {}       # nothing but includes
            f = dict(path=p, ok=tame or rnd.random() < 0.97, incok=rnd.random() < 0.96, incs=incs, own=entries(own))
            if rnd.random() < 0.05:
                # an include directive further down is a parameter like others
                own["_includes" if False else "sub"] = {"_includes": ["nothing"], "k": 1}
                f["own"] = entries(own)
            bad = rnd.choice(BAD_INCLUDES)
            if rnd.random() < 0.4:
                # what would be an include, were it in a list: a path of a file there is, or one in something else than a list
                there = os.path.join(root, *rnd.choice(cands or paths)) if rnd.random() < 0.5 else os.path.relpath("/".join(["/"] + (cands or paths)[0]), "/".join(["/"] + p[:-1]))
                bad = rnd.choice([there, there, {there: None}, {there: there}, {"file": there}, [[there]]])
            text = write_includes(w, root, f, own, texts, p, rnd, bad)
            if samesize:
                text = text.rstrip("\n") + "\n#" + " " * (900 - len(text.rstrip("\n").encode("utf-8"))) + "\n"
            if not f["ok"]:
                text = rnd.choice(BAD_FILES)
            files.append(f)
            texts[tuple(p)] = text
        beside(rnd, files, dirs, texts)
        ctx = {} if rnd.random() < 0.5 else tame_tree(rnd, 2, False) if tame else own_tree(rnd, names + ["g"], 1, rnd.randint(0, 3), [], refs=0)
        for p in dirs:
            os.makedirs(os.path.join(root, *p), exist_ok=True)
        env = {}
        if rnd.random() < 0.5:
            # often named like parameters which some file gives
            env = {k: rnd.choice(["env" + k, "", "1"]) for k in rnd.sample(names + ["E", "only0", "only1", "only2", "only3", "g"], rnd.randint(1, 5))}
        w.doing((files, ctx))
        top = files[0]
        if rnd.random() < 0.15:
            if top["ok"]:
                rec = dict(files=files, dirs=dirs, dir=["?"], stack=[], top=top, toppath=top["path"])
                load(w, root, rec, {k: v for k, v in texts.items() if list(k) != top["path"]} if not loops else texts, ctx, env, bool(env), texts[tuple(top["path"])])
                if not loops:
                    pass
        else:
            rec = dict(files=files, dirs=dirs, dir=top["path"][:-1], stack=[top["path"]], top=top, toppath=top["path"])
            if rnd.random() < 0.02:
                texts.pop(tuple(top["path"]))
                rec["top"] = dict(top, ok=False)
            load(w, root, rec, texts, ctx, env, bool(env), None)
        clean(root)
    # both ways of giving a context at once
    f = os.path.join(w.scratch("both"), "f.params")
    with open(f, "w") as o:
        o.write("a: 1\n")
    r = w.call(lambda: YAMLParametersLoader().load(f, Parameters.empty(), included_context=Parameters.empty()))
    if r[0] == "ok" or r[1] != "ParameterError":
        w.mismatch("a context given twice: %r" % (r,))


def beside(rnd, files, dirs, texts):
    """Other files of the names which are included, in other directories."""
    def norm(d, path):
        return tuple(os.path.normpath("/".join(["/"] + d + path)).strip("/").split("/"))
    targets = {norm([] if i["abs"] else f["path"][:-1], i["path"]) for f in files for i in f["incs"]}
    for f in files:
        for i in f["incs"]:
            for d in dirs:
                q = norm(d, i["path"])
                if rnd.random() < 0.7 and q not in targets and q not in texts and list(q[:-1]) in dirs and list(q) not in dirs:
                    texts[q] = rnd.choice(["decoy: 1\n", "a: decoy\n", "b: {decoy: 1}\n", "- x\n"])


def tame_tree(rnd, depth, refs=True):
    own = {}
    for x in "abcd":
        if rnd.random() < 0.4:
            own[x] = rnd.choice(["v%d" % rnd.randint(0, 99), rnd.randint(0, 99), True, 2.5, [1, "x"], "", "é"])
    if refs and rnd.random() < 0.4:
        x, y = rnd.sample("abcd", 2)
        if y in own:
            own[x] = rnd.choice(["%%%s%%" % y, "%%%s%%" % y, "-%%%s%%" % y if isinstance(own[y], str) else "plain"])
    for x in "NM":
        if depth and rnd.random() < 0.4:
            own[x] = tame_tree(rnd, depth - 1, False)
    return own


def include_of(rnd, from_dir, target, dirs):
    z = rnd.random()
    if z < 0.25:
        return dict(abs=True, path=target)
    if z < 0.35 and len(target) > 1:
        return dict(abs=True, path=target[:-1] + ["..", target[-2]] + target[-1:])
    # up to the common part, and down
    k = 0
    while k < len(from_dir) and k < len(target) - 1 and from_dir[k] == target[k]:
        k += 1
    if rnd.random() < 0.2:
        k = rnd.randint(0, k)
    q = [".."] * (len(from_dir) - k) + target[k:]
    if rnd.random() < 0.1:
        q.insert(rnd.randint(0, len(q) - 1), ".")
    return dict(abs=False, path=q)


def clean(root):
    for d, ds, fs in os.walk(root, topdown=False):
        for f in fs:
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
