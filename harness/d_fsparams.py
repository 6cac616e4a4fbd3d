"""Drivers for parameters naming files and directories."""
import os
import shutil
from pathlib import Path

from vistautils.parameters import Parameters

MARK = 1_000_000_000_000_000_000
NAMES = ["a", "b", "c", "data", "x.txt", "with space", "é日", "~", "$HOME", "-rf", "a.b", ".hidden", "%a%", "*", "b" * 60, "...", " lead", "trail ", "tab\t", "line\n", " ", "A", "e\u0301", "\u00e9", "a\\b", "${HOME}", "c;d", "#c", "null", "\u3000wide\u3000"]


class Tree:
    """A directory tree under `root`, with somebody else's files beside it."""

    def __init__(self, w, name):
        self.base = w.scratch(name)
        self.root = os.path.join(self.base, "root")
        os.makedirs(self.root, exist_ok=True)
        self.beside = os.path.join(self.base, "beside")
        with open(self.beside, "w") as f:
            f.write("x")
        self.n = 0

    def at(self, p):
        return os.path.join(self.root, *p)

    def clear(self):
        os.chdir(self.base)
        for n in os.listdir(self.root):
            self.drop((n,))

    def drop(self, p):
        q = self.at(p)
        if os.path.isdir(q) and not os.path.islink(q):
            shutil.rmtree(q)
        else:
            os.unlink(q)

    def put(self, p, e):
        q = self.at(p)
        if e["t"] == "dir":
            os.mkdir(q)
        elif e["t"] == "fifo":
            os.mkfifo(q)
        elif e["t"] == "file":
            with open(q, "w") as f:
                f.write(e["v"])
            os.utime(q, ns=(MARK, MARK))
        else:
            os.symlink(self.at(e["to"]) if e["abs"] else (os.path.join(*e["to"]) if e["to"] else "."), q)

    def build(self, entries):
        self.clear()
        for e in sorted(entries, key=lambda e: len(e["p"])):
            self.put(e["p"], e)

    def look(self):
        out = []

        def walk(d, p):
            for n in sorted(os.listdir(d)):
                q, at = p + [n], os.path.join(d, n)
                if os.path.islink(at):
                    to = os.readlink(at)
                    ab = to.startswith("/")
                    if ab:
                        to = os.path.relpath(to, self.root)
                    out.append(dict(p=q, t="link", v="", abs=ab, to=[] if ab and to == "." else to.split("/")))
                elif os.path.isdir(at):
                    out.append(dict(p=q, t="dir", v="", abs=False, to=[]))
                    walk(at, q)
                elif os.path.isfile(at):
                    with open(at) as f:
                        v = f.read()
                    st = os.stat(at)
                    if st.st_mtime_ns != MARK:
                        v += " (written)"
                    out.append(dict(p=q, t="file", v=v, abs=False, to=[]))
                else:
                    out.append(dict(p=q, t="fifo", v="", abs=False, to=[]))
        walk(self.root, [])
        return out

    def above_root(self, cwd, req):
        """Does the way of this request leave the root?"""
        cur = self.root if req["abs"] else self.at(cwd)
        for c in req["comps"]:
            cur = os.path.realpath(cur)
            if c == "..":
                if cur == os.path.realpath(self.root):
                    return True
                cur = os.path.dirname(cur)
            elif c not in ("", "."):
                cur = os.path.join(cur, c)
        real = os.path.realpath(cur)
        return req["del"] and real == os.path.realpath(self.root)

    def comps(self, path):
        root = os.path.realpath(self.root)
        s = str(path)
        if s == root:
            return []
        if s.startswith(root + "/"):
            return s[len(root) + 1:].split("/")
        return ["not below the root:", s]


def spell(rnd, tree, req):
    s = "/".join(req["comps"]) or "."
    if req["abs"]:
        return tree.root + ("/" + s if req["comps"] else "")
    if rnd.random() < 0.1 and req["comps"] and req["comps"][0] != "":
        s = "./" + s
    return s


OTHERS = [5, True, 0, ["x"], 1.5, {"x": "y"}, [], {}]


def params_for(rnd, tree, req):
    name = rnd.choice(["p", "out_dir", "file"])
    if req["given"] == "path":
        leaf = {name: spell(rnd, tree, req)}
    elif req["given"] == "null":
        leaf = {name: None}
    elif req["given"] == "other":
        leaf = {name: rnd.choice(OTHERS)}
    else:
        leaf = {"q": "x"} if rnd.random() < 0.5 else {}
    depth = rnd.choice([0, 0, 1, 2])
    path = ["n", "m"][:depth]
    nested = leaf
    for k in reversed(path):
        nested = {k: nested, "other": tree.root}
    ps = Parameters.from_mapping(nested)
    if depth and rnd.random() < 0.4:
        return ps.namespace(".".join(path)), name
    return ps, ".".join(path + [name])


def ask(w, tree, ps, name, req):
    kw = {}
    if req["acc"] == "creatable_empty_directory" and (req["del"] or w.rnd.random() < 0.5):
        kw["delete"] = req["del"]
    r = w.call(lambda: getattr(ps, ("optional_" if req["opt"] else "") + req["acc"])(name, **kw))
    if r[0] == "ok":
        if r[1] is None:
            return dict(k="nothing", p=[])
        return dict(k="ret", p=tree.comps(r[1])) if isinstance(r[1], Path) else dict(k="not a path", p=[])
    return dict(k="perr" if r[1] == "ParameterError" else "hang" if r[0] == "hang" else "err", p=[])


def key(es):
    return sorted((e["p"], e["t"], e["v"], e["abs"], e["to"]) for e in es)


def fs_replay(w):
    rnd = w.rnd
    tree = Tree(w, "replay")
    for c in w.input["cases"]:
        asks = c["asks"]
        rnd.shuffle(asks)
        tree.build(c["fs"])
        for a in asks[:w.input["asks"]]:
            req = a["req"]
            if tree.above_root([], req):
                continue
            ps, name = params_for(rnd, tree, req)
            w.doing((c["fs"], req))
            os.chdir(tree.root)
            out = ask(w, tree, ps, name, req)
            if a["k"] == "any":
                tree.build(c["fs"])
                continue
            after = tree.look()
            want = [e for e in c["fs"] if e["p"] not in a["less"]] + [dict(p=p, t="dir", v="", abs=False, to=[]) for p in a["more"]]
            loose = req["acc"] == "creatable_file" and any(e["p"] == a["p"] and e["t"] == "dir" for e in c["fs"]) or (req["acc"] == "creatable_file" and a["p"] == [])
            if not loose and (out["k"] not in ((a["k"], "perr") if a["k"] == "err" else (a["k"],)) or (out["k"] == "ret" and out["p"] != a["p"])):
                w.mismatch("%s of %s: specification says %s %s, code gives %s %s" % (req["acc"], "/".join(req["comps"]), a["k"], a["p"], out["k"], out["p"]), case=c["fs"], req=req)
            if key(after) != key(want):
                w.mismatch("%s of %s left another tree than specified" % (req["acc"], "/".join(req["comps"])), before=c["fs"], req=req, after=after, want=want)
            if a["less"] or a["more"] or key(after) != key(want):
                tree.build(c["fs"])
        if w.full():
            return
    os.chdir(w.wd)


def rand_entry(rnd, depth, n):
    z = rnd.random()
    if z < 0.35:
        return dict(t="file", v="content %d" % n, abs=False, to=[])
    if z < 0.8:
        return dict(t="dir", v="", abs=False, to=[])
    if z < 0.85:
        return dict(t="fifo", v="", abs=False, to=[])
    ab = rnd.random() < 0.4
    ups = 0 if ab else rnd.randint(0, depth)
    names = [rnd.choice(NAMES[:rnd.choice([3, 6, len(NAMES)])]) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
    to = [".."] * ups + names
    return dict(t="link", v="", abs=ab, to=to if to or ab else ["."])


def fs_record(w):
    rnd = w.rnd
    tree = Tree(w, "random")
    made = 0
    while made < w.input["random"]:
        tree.clear()
        names = rnd.sample(NAMES, rnd.choice([2, 3, 5]))
        held = []
        n = 0
        cwd = []
        for step in range(rnd.randint(8, 30)):
            now = tree.look()
            z = rnd.random()
            dirs = [[]] + [e["p"] for e in now if e["t"] == "dir"]
            if z < 0.45 and len(now) < 25 or step < 4:
                d = rnd.choice(dirs)
                name = rnd.choice(names)
                if len(d) < 4 and d + [name] not in [e["p"] for e in now]:
                    n += 1
                    tree.put(d + [name], rand_entry(rnd, len(d), n))
                continue
            if z < 0.5 and now:
                tree.drop(rnd.choice(now)["p"])
                continue
            if z < 0.55:
                cwd = rnd.choice(dirs)
                continue
            if not os.path.isdir(tree.at(cwd)) or os.path.realpath(tree.at(cwd)) != os.path.join(os.path.realpath(tree.root), *cwd):
                cwd = []
            acc = rnd.choice(["existing_file", "existing_directory", "creatable_file", "creatable_directory", "creatable_empty_directory", "creatable_empty_directory"])
            given = rnd.choice(["path"] * 9 + ["absent", "null", "other"])
            comps = []
            if given == "path":
                if now and rnd.random() < 0.6:
                    comps = list(rnd.choice(now)["p"])
                    if rnd.random() < 0.4:
                        comps += [rnd.choice(names) for _ in range(rnd.choice([1, 1, 2]))]
                else:
                    comps = [rnd.choice(names) for _ in range(rnd.randint(1, 4))]
                for _ in range(rnd.choice([0, 0, 0, 1, 2])):
                    comps.insert(rnd.randint(0, len(comps)), rnd.choice([".", "..", "..", ""]))
                if comps[0] in ("", "~"):  # (not a path from here)
                    comps = ["."] + comps
            req = dict(acc=acc, opt=rnd.random() < 0.35, given=given, abs=rnd.random() < 0.5, comps=comps,
                       **{"del": acc == "creatable_empty_directory" and rnd.random() < 0.5})
            if held and rnd.random() < 0.25:  # the same parameters again
                ps, name, old = rnd.choice(held)
                req = dict(old, acc=acc, opt=req["opt"], **{"del": req["del"]})
            else:
                ps, name = params_for(rnd, tree, req)
                held.append((ps, name, req))
            if tree.above_root(cwd, req):
                continue
            w.doing((now, cwd, req))
            os.chdir(tree.at(cwd))
            out = ask(w, tree, ps, name, req)
            os.chdir(tree.base)
            after = tree.look()
            w.record(dict(before=now, cwd=cwd, req=req, out=out, after=after))
            made += 1
            with open(tree.beside) as f:
                if f.read() != "x" or sorted(os.listdir(tree.base)) != ["beside", "root"]:
                    w.mismatch("something beside the tree was changed", req=req)
                    return
