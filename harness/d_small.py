"""Drivers for checkpoints, iterator utilities and topological sorting."""
import itertools
import json
import os
import shutil
from collections.abc import Sequence
from pathlib import Path

from vistautils.checkpoints import Checkpoints

NAMES = ["a", "A", "b", " a", "a ", "\u00e9", "e\u0301", ".hidden", "a.b", "x" * 200, "x" * 199 + "y", "x" * 255, "\u4e2d" * 85, "%s", "*", "-rf", "a\nb", "~", "con", "0", "\u4e2d\U0001f600"]
NOT_NAMES = [None, 3, b"a", ("a",), ["a"], Path("a"), 0, False]


def in_child(fn):
    """Run fn in another process (a forked one) and give back its JSON answer."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = ["err", "?"]
        try:
            try:
                out = ["ok", fn()]
            except BaseException as e:
                out = ["err", type(e).__name__]
            os.write(wr, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = json.loads(data.decode())
    if out[0] == "err":
        raise RuntimeError(out[1])
    return out[1]


class Points:
    """Handles on several checkpoint directories."""

    def __init__(self, w, base, names, dirs, child=0.0):
        self.w, self.rnd, self.base, self.names, self.child = w, w.rnd, Path(base), names, child
        self.paths = [self.base / x for x in dirs]
        self.handles = [[] for _ in dirs]

    def handle(self, d):
        p = self.paths[d - 1]
        h = Checkpoints.from_directory(p if self.rnd.random() < 0.5 else str(p) + self.rnd.choice(["", "", "/", "/."]))
        self.handles[d - 1].append(h)

    def any(self, d):
        return self.rnd.choice(self.handles[d - 1])

    def run(self, fn):
        return in_child(fn) if self.rnd.random() < self.child else fn()

    def do(self, op, d, n):
        if op == "handle":
            return self.handle(d)
        h = self.any(d)
        if op == "set":
            return self.run(lambda: h.set(self.names[n - 1]))
        if op == "ask":
            return self.run(lambda: 1 if self.names[n - 1] in h else 0)
        if op == "reset":
            return self.run(lambda: h.reset_all())
        bad = self.rnd.choice(NOT_NAMES)
        if self.rnd.random() < 0.5:
            return h.set(bad)
        return bad in h

    def all(self):
        out = []
        for d, hs in enumerate(self.handles, 1):
            if not hs:
                out.append([])
                continue
            h = self.any(d)
            got = [i for i, x in enumerate(self.names, 1) if x in h]
            # the same question to another handle
            g = self.any(d)
            if [i for i, x in enumerate(self.names, 1) if x in g] != got:
                got = [0]
            if not self.paths[d - 1].is_dir():
                got = [0]
            # what names the directory itself was never saved
            if self.rnd.random() < 0.3 and self.w.call(lambda: self.rnd.choice(["", ".", "./", ".."]) in h)[1] is True:
                got = [0]
            out.append(got)
        return out


def some_names(rnd, k):
    """Names which have nothing to do with each other, or names such as are made for temporary files, copies or locks."""
    names = rnd.sample(NAMES, k)
    if rnd.random() < 0.12:
        # long names which begin or end alike
        n = rnd.choice([20, 64, 100, 128, 140, 200, 254])
        m = rnd.randint(1, n - 1)
        like = ["x" * n + c for c in "abcd"] + [c + "x" * n for c in "abcd"] + ["x" * i for i in range(n - 4, n + 1)] + ["x" * m + c + "x" * (n - m) for c in "abcd"]
        names = rnd.sample(like, k)
    elif rnd.random() < 0.15:
        like = list(rnd.choice([["\u00e9", "e\u0301", "e", "E"], ["\u212b", "\u00c5", "A\u030a", "A"], ["\ufb01", "fi", "FI", "f"], ["..x", "dot..x", "x", "_..x"],
                                ["...", "....", "..x", "dot..."], ["stra\u00dfe", "strasse", "STRASSE", "s"], ["a b", "a_b", "a-b", "ab"], ["a:b", "a_b", "a|b", "a?b"],
                                ["-x", "_x", "x-", "x"], ["1", "01", "1.0", "one"], ["\u00b5", "\u03bc", "u", "m"], ["a\\b", "a", "b", "ab"]]))
        rnd.shuffle(like)
        names = like + [x for x in names if x not in like]
    elif rnd.random() < 0.5:
        base = rnd.choice(["a", "task", "x.y", "A b", "\u00e9"])
        like = [base + e for e in (".tmp", "~", ".lock", ".bak", ".new", ".part", ".done", ".swp", ".1", " ", ".", "_", "-tmp", ".json", ".txt", "\u0301")]
        like += [e + base for e in (".", "_", "tmp", ".tmp.", "~", "#", ".#", "-", " ", ".nfs")] + [base.upper(), base.swapcase(), base * 2]
        names = list(dict.fromkeys([base] + rnd.sample(like, k)))
        rnd.shuffle(names)
    return names[:k]


def _fresh(base, n):
    d = Path(base, "h%d" % (n % 10))
    if d.exists():
        shutil.rmtree(str(d))
    d.mkdir()
    return d


def points_replay(w):
    rnd = w.rnd
    base = w.scratch("cp")
    nn, nd = w.input["names"], w.input["dirs"]
    for n, h in enumerate(w.input["histories"]):
        names = some_names(rnd, nn)
        p = Points(w, _fresh(base, n), names, rnd.sample(["d", "d2", "x/y", "e f", "\u00e9"], nd))
        for i, s in enumerate(h["h"]):
            w.doing("%s of %s" % (i, [(q["op"], q["d"], q["n"]) for q in h["h"]]))
            r = w.call(p.do, s["op"], s["d"], s["n"])
            want = ["err"] if s["op"] == "bad" else ["ok"]
            if [r[0]] != want:
                w.mismatch("checkpoints %s with names %s: step %d gives %s" % (
                    [(q["op"], q["d"], q["n"]) for q in h["h"]], names, i + 1, r[:2]), names=names, history=h["h"][:i + 1])
                break
            a = w.call(p.all)
            want = [sorted(x) for x in s["saved"]]
            if a[0] != "ok" or a[1] != want:
                w.mismatch("checkpoints %s with names %s: after step %d the specification has %s, the code %s" % (
                    [(q["op"], q["d"], q["n"]) for q in h["h"]], names, i + 1, want, a[1]), names=names, history=h["h"][:i + 1])
                break
        if w.full():
            return


def points_record(w):
    rnd = w.rnd
    base = w.scratch("cp")
    nn, nd = w.input["names"], w.input["dirs"]
    for n in range(w.input["histories"]):
        names = some_names(rnd, nn)
        p = Points(w, _fresh(base, n), names, rnd.sample(["d", "d2", "x/y", "e f", "\u00e9", "D"], nd), child=0.08)
        w.record(dict(op="new"))
        for _ in range(rnd.choice([8, 25])):
            d = rnd.randint(1, nd)
            k = rnd.random()
            op = "handle" if not p.handles[d - 1] or k < 0.12 else "set" if k < 0.5 else "reset" if k < 0.57 else "bad" if k < 0.64 else "ask"
            rec = dict(op=op, d=d, n=rnd.randint(1, nn), ans=0)
            w.doing(rec)
            r = w.call(p.do, op, d, rec["n"])
            rec["res"] = r[0]
            if op == "ask" and r[0] == "ok":
                rec["ans"] = r[1]
            a = w.call(p.all)
            rec["all"] = a[1] if a[0] == "ok" else [[0]] * nd
            w.record(rec)


# --------------------------------------------------------------------------- iterator utilities
class EqAll:
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class EqBoom:
    def __eq__(self, o):
        raise RuntimeError("compared")

    def __bool__(self):
        raise RuntimeError("tested")

    __hash__ = None


class InputBoom(Exception):
    pass


class InputBooms:
    """Failures of the input, of kinds that something careless could take for something else."""
    kinds = [InputBoom] + [type("InputBoom", (c,), {}) for c in (KeyError, ValueError, IndexError, TypeError, AttributeError, RuntimeError, OSError, AssertionError)]
    n = 0

    @classmethod
    def next(cls):
        cls.n += 1
        return cls.kinds[cls.n % len(cls.kinds)]()


def elements(rnd):
    """Objects standing for the abstract elements; 0 is None."""
    pool = [0, "", [], (), False, "x", 1, 1.0, True, EqAll(), EqBoom(), {}, float("nan"), StopIteration(), b"", NotImplemented, object()]
    rnd.shuffle(pool)
    return {0: None, **{i + 1: p for i, p in enumerate(pool[:9])}}


class Counting:
    """An iterator which counts what is taken and may fail at its boom-th element."""

    def __init__(self, items, boom=0, endless=None):
        self.items, self.boom, self.endless, self.taken = items, boom, endless, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.boom and self.taken + 1 >= self.boom:
            raise InputBooms.next()
        if self.taken >= len(self.items):
            if self.endless is None:
                raise StopIteration
            self.taken += 1
            return self.endless
        self.taken += 1
        return self.items[self.taken - 1]


class CountingIterable:
    def __init__(self, items, boom=0, endless=None):
        self.args = (items, boom, endless)
        self.its = []

    def __iter__(self):
        self.its.append(Counting(*self.args))
        return self.its[-1]

    @property
    def taken(self):
        return max([i.taken for i in self.its] or [0])


class OldStyle:
    """A sequence by __getitem__ alone."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class ListOnPaper(list):
    """A list which is read in another way than it is stored, as lists which make their items when asked do."""

    def __init__(self, items):
        super().__init__([None] * 3)
        self.items = items

    def __iter__(self):
        return iter(self.items)


def _gen(items):
    for i in items:
        yield i


SOURCES = ["list", "tuple", "iter", "gen", "counting", "counting", "countingable", "countingable", "old", "deque", "made", "dictkeys"]


def make_source(kind, items, boom=0, endless=None):
    from collections import deque
    if kind == "counting":
        return Counting(items, boom, endless)
    if kind == "countingable":
        return CountingIterable(items, boom, endless)
    return dict(list=list, tuple=tuple, iter=lambda x: iter(x), gen=_gen, old=OldStyle, deque=deque, made=ListOnPaper,
                dictkeys=lambda x: {i: 0 for i in x}.keys())[kind](items)


def _api():
    from vistautils import collection_utils, iter_utils, iterutils, misc_utils
    return iter_utils, iterutils, collection_utils, misc_utils


def _back(objs, v):
    for k, o in objs.items():
        if o is v:
            return k
    return -7


def iter_replay(w):
    """Every exported case on every kind of source."""
    iu, old, cu, mu = _api()
    rnd = w.rnd
    for c in w.input["cases"]:
        objs = elements(rnd)
        items = [objs[x] for x in c["s"]]
        kinds = [k for k in set(SOURCES) if k != "dictkeys"]
        for kind in rnd.sample(kinds, w.input["kinds"]):
            def mk():
                return make_source(kind, items)

            def seq(x):
                return [_back(objs, y) for y in x]

            def check(what, fn, want):
                w.doing("%s of %s (%s)" % (what, c["s"], kind))
                r = w.call(fn)
                if r[0] != "ok" or r[1] != want:
                    w.mismatch("%s of %s given as %s: specification says %s, code gives %s" % (what, c["s"], kind, want, r[1:]),
                               case=c, source=kind)
            check("windowed(%d, partial=%s)" % (c["w"], c["partial"]),
                  lambda: [seq(x) if isinstance(x, tuple) else x for x in iu.windowed(mk(), c["w"], partial_windows=c["partial"])],
                  c["windows"])
            if not c["partial"]:
                check("windowed(%d)" % c["w"], lambda: [seq(x) for x in iu.windowed(mk(), c["w"])], c["windows"])
                if c["w"] == 2:
                    check("tile_with_pairs", lambda: [seq(x) for x in old.tile_with_pairs(mk())], c["windows"])
            for n, d in enumerate(c["drops"]):
                check("drop(%d)" % n, lambda: seq(iu.drop(mk(), n)), d)
            check("non_none", lambda: seq(iu.non_none(mk())), c["nonnone"])
            for nm, f in (("only", iu.only), ("get_only", cu.get_only)):
                w.doing("%s of %s (%s)" % (nm, c["s"], kind))
                r = w.call(lambda: f(mk()))
                if c["only"]:
                    if r[0] != "ok" or _back(objs, r[1]) != c["s"][0]:
                        w.mismatch("%s of %s given as %s: %s" % (nm, c["s"], kind, r[1:]), case=c, source=kind)
                elif r[:2] != ("err", "ValueError"):
                    w.mismatch("%s of %s given as %s: %s instead of a ValueError" % (nm, c["s"], kind, r[1:]), case=c, source=kind)
        if w.full():
            return


def iter_record(w):
    iu, old, cu, mu = _api()
    rnd = w.rnd
    for _ in range(w.input["rounds"]):
        objs = elements(rnd)
        op = rnd.choice(["windowed", "windowed", "drop", "drop", "nonnone", "only", "flatten"])
        s = [rnd.choice([0, 0] + list(objs)) for _ in range(rnd.choice([0, 1, 2, 3, 5, 8, 13] * 15 + [80, 150]))]
        rec = dict(op=op, s=s, w=rnd.choice([-1, 0, 1, 1, 2, 2, 3, 4, 6, 10, 20, 100]), partial=rnd.random() < 0.5, take=-1, out=[], pulls=[],
                   first=0, boom=0, res="ok", lax=False, kind=rnd.choice(SOURCES[:-1]))
        if op == "windowed" and rec["w"] > 10 and rnd.random() < 0.5:
            rec["w"] = 5
        if op in ("windowed", "drop") and _ % 150 < 2:       # wide ones
            rec["w"] = [130, 1025, 257, 1026][_ // 150 % 4]
            rec["s"] = s = [rnd.choice(list(objs)) for _ in range(rec["w"] + rnd.choice([-1, 0, 1, 1]))]
        items = [objs[x] for x in s]
        if op == "flatten":
            rec["s"] = ss = [[rnd.choice(list(objs)) for _ in range(rnd.choice([0, 1, 2, 4]))] for _ in range(rnd.choice([0, 1, 3]))]
            inner = [make_source(rnd.choice(SOURCES[:-1]), [objs[x] for x in q]) for q in ss]
            if rnd.random() < 0.4:
                # strings and the like are iterables as others are
                objs.update({11: chr(115), 12: chr(116), 13: 77, 14: 78})
                for i in range(len(ss)):
                    if rnd.random() < 0.5:
                        k = rnd.choice([11, 13])
                        ss[i] = [rnd.choice([k, k + 1]) for _ in range(rnd.choice([0, 1, 3]))]
                        inner[i] = ("" if k == 11 else b"").join(objs[x] if k == 11 else bytes([objs[x]]) for x in ss[i])
            r = w.call(lambda: mu.flatten_once_to_list(make_source(rec["kind"], inner)))
            rec["res"] = "ok" if r[0] == "ok" and isinstance(r[1], list) else str(r[1])
            rec["out"] = [_back(objs, x) for x in r[1]] if rec["res"] == "ok" else []
            w.record(rec)
            continue
        src = make_source(rec["kind"], items)
        if op == "only":
            f = rnd.choice(["only", "get_only"])
            if rec["kind"].startswith("counting") and rnd.random() < 0.4:
                rec["boom"] = rnd.randint(1, min(len(s) + 1, 2))
                src = make_source(rec["kind"], items, rec["boom"])
            rec["f"] = f
            r = w.call(iu.only if f == "only" else cu.get_only, src)
            rec["res"] = "ok" if r[0] == "ok" else "Boom" if r[1] == "InputBoom" else r[1]
            rec["out"] = [_back(objs, r[1])] if r[0] == "ok" else []
            rec["first"] = getattr(src, "taken", 0)
            rec["lax"] = f == "get_only" and len(s) > 2
            w.record(rec)
            continue
        endless = None
        if rec["kind"].startswith("counting"):
            z = rnd.random()
            if z < 0.3:
                rec["boom"] = rnd.randint(1, len(s) + 1)
                # an input which fails only where it would have ended fails all the same
                src = make_source(rec["kind"], items, rec["boom"])
            elif z < 0.6:
                endless = 1
                need = 4 + max(rec["w"], 1)
                rec["take"] = rnd.randint(0, 4)
                # the part which matters
                rec["s"] = s = s + [1] * (need + rec["take"])
                src = make_source(rec["kind"], items, 0, objs[1])
        if rec["take"] < 0 and rnd.random() < 0.3:
            rec["take"] = rnd.randint(0, 5)

        def make():
            if op == "windowed":
                if rec["w"] == 2 and not rec["partial"] and rnd.random() < 0.3:
                    return old.tile_with_pairs(src)
                return iu.windowed(src, rec["w"], partial_windows=rec["partial"])
            if op == "drop":
                return iu.drop(src, rec["w"])
            return iu.non_none(src)
        w.doing(rec)
        r = w.call(make)
        if r[0] != "ok":
            rec["res"] = r[1]
            w.record(rec)
            continue
        result = r[1]
        rec["first"] = getattr(src, "taken", 0)
        again = 2 if rec["kind"] in ("list", "tuple", "countingable", "old", "deque", "made") and op != "nonnone" else 1

        def consume(it, rec):
            rec["out"], rec["pulls"] = [], []
            n = rec["take"]
            others = [iter(result)] if again == 2 and rec["kind"] != "countingable" and rnd.random() < 0.5 else []
            while n != 0:
                # readings under way at the same time have nothing to do with each other
                if others and rnd.random() < 0.4:
                    next(others[0], None)
                    if rnd.random() < 0.2:
                        others[0] = iter(result)
                try:
                    v = next(it)
                except StopIteration:
                    break
                rec["out"].append([_back(objs, x) for x in v] if op == "windowed" else _back(objs, v))
                if op == "windowed" and not isinstance(v, tuple):
                    rec["out"][-1] = ["no tuple"]
                if rec["kind"] in ("counting", "countingable"):
                    t = src.its[-1] if rec["kind"] == "countingable" else src
                    rec["pulls"].append(t.taken)
                n -= 1
        for k in range(again):
            q = dict(rec)
            it = w.call(iter, result)
            if it[0] != "ok":
                q["res"] = it[1]
            else:
                if again == 2 and rnd.random() < 0.3 and rec["kind"] != "countingable":
                    # another reading of the same result, begun but not finished
                    w.call(lambda: next(iter(result), None))
                r = w.call(consume, it[1], q, seconds=5)
                if r[0] != "ok":
                    q["res"] = "Boom" if r[1] == "InputBoom" else r[1]
            w.record(q)
    # inputs far too long to be gone through, or copied
    for n in range(24):
        op = ["windowed", "drop", "nonnone"][n % 3]
        k = rnd.choice([1, 2, 3, 5, 40])
        rec = dict(op=op, s=list(range(1, k + 8)), w=k, partial=rnd.random() < 0.5, take=rnd.randint(1, 4), out=[], pulls=[], first=0, boom=0, res="ok", lax=False, kind="huge")
        src = rnd.choice([lambda: range(1, 10 ** 12), lambda: HugeSequence(10 ** 12), lambda: itertools.count(1)])()
        w.doing("%s of %r" % (rec, src))
        r = w.call(lambda: list(itertools.islice(iter(iu.windowed(src, k, partial_windows=rec["partial"]) if op == "windowed" else iu.drop(src, k) if op == "drop" else iu.non_none(src)),
                                                 rec["take"])), seconds=5)
        rec["res"] = "ok" if r[0] == "ok" else r[0] if r[0] == "hang" else r[1]
        if r[0] == "ok":
            rec["out"] = [list(x) if isinstance(x, tuple) else x for x in r[1]]
        w.record(rec)


class HugeSequence(Sequence):
    """A sequence whose elements are made when asked for; slices of it are lists."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(self.n)[i]]
        if not -self.n <= i < self.n:
            raise IndexError(i)
        return i % self.n + 1


# --------------------------------------------------------------------------- topological sorting
NODE_NAMES = ["a", "b", "", 0, (), frozenset(), (1, "a"), 2.5, "a.b", "A", "%x%", "\u00e9", "0", "a.b.c", " ", "node", "x" * 50, "z", "y", "w"]


def _graph_record(w, names, nodes, edges, runs=2, large=None):
    from vistautils._graph import Digraph
    rnd = w.rnd
    rec = dict(nodes=nodes, edges=edges, made="ok", runs=[], deg=[], preds=[], large=large is not None)
    if large:
        rec.update(large)
    w.doing(rec if not large else "a graph of %d nodes and %d edges" % (len(nodes), len(edges)))
    nn = [names[x] for x in nodes]
    ee = [(names[a], names[b]) for a, b in edges]
    kw = {}
    if nn or rnd.random() < 0.5:
        kw["nodes"] = rnd.choice([list, tuple])(nn)
    if ee or rnd.random() < 0.5:
        kw["edges"] = rnd.choice([list, tuple])(ee)
    r = w.call(lambda: Digraph(**kw))
    if r[0] != "ok":
        rec["made"] = r[1]
        w.record(rec)
        return
    g = r[1]
    back = {n: i for i, n in enumerate(names)}

    def run():
        got = []
        try:
            for x in g.topological_sort():
                got.append(back[x])
                if len(got) > 3 * len(names) + 5:
                    return "endless", got
            return "ok", got
        except Exception as e:
            return type(e).__name__, got
    for _ in range(runs):
        r = w.call(run)
        rec["runs"].append(dict(res=r[1][0] if r[0] == "ok" else str(r[0]), order=r[1][1] if r[0] == "ok" else []))
    if large:
        w.record(rec)
        return
    r = w.call(lambda: [g.in_degree()[names[x]] for x in nodes])
    rec["deg"] = r[1] if r[0] == "ok" else [-1]
    r = w.call(lambda: dict(g.in_degree()))
    if r[0] != "ok" or r[1] != {names[x]: d for x, d in zip(nodes, rec["deg"])}:
        rec["deg"] = [-2]
    r = w.call(lambda: [[back[p] for p in g.predecessors[names[x]]] for x in nodes])
    rec["preds"] = r[1] if r[0] == "ok" else [[-1] for _ in nodes]
    w.record(rec)


def topo_record(w):
    rnd = w.rnd
    for c in w.input["graphs"]:
        names = [None] + rnd.sample(NODE_NAMES, max(c["n"], 1))
        nodes = list(range(1, c["n"] + 1))
        rnd.shuffle(nodes)
        edges = list(c["edges"])
        rnd.shuffle(edges)
        _graph_record(w, names, nodes, edges)
    for _ in range(w.input["random"]):
        n = rnd.choice([4, 5, 6, 9, 14])
        names = [None] + (rnd.sample(NODE_NAMES, n) if rnd.random() < 0.7 else ["n%d" % i for i in range(n)])
        order = list(range(1, n + 1))
        rnd.shuffle(order)
        m = rnd.choice([n - 1, n, 2 * n, 3 * n])
        edges = []
        for _ in range(m):
            a, b = sorted(rnd.sample(range(n), 2))
            edges.append([order[a], order[b]])
        for _ in range(rnd.choice([0, 0, 0, 1, 1, 2])):    # perhaps a cycle
            a, b = rnd.randrange(n), rnd.randrange(n)
            edges.append([order[max(a, b)], order[min(a, b)]])
        edges += [rnd.choice(edges) for _ in range(rnd.choice([0, 0, 2]))]
        nodes = list(range(1, n + 1))
        if rnd.random() < 0.1:
            nodes.remove(rnd.choice(nodes))
        rnd.shuffle(nodes)
        rnd.shuffle(edges)
        _graph_record(w, names, nodes, edges)
    # a node which is missed by the last edges only
    for n in (5, 20, 100):
        names = [None] + ["n%d" % i for i in range(n)]
        _graph_record(w, names, list(range(1, n)), [[i, i + 1] for i in range(1, n)])
        _graph_record(w, names, list(range(2, n + 1)), [[i, i - 1] for i in range(n, 1, -1)])
    for i in range(w.input["large"]):
        # long paths, wide stars and layers; with a long cycle, or without
        n = rnd.choice([700, 1300])
        order = list(range(1, n + 1))
        rnd.shuffle(order)
        shape = ["path", "star", "layers"][i % 3]
        if shape == "path":
            edges = [[a, b] for a, b in zip(order, order[1:])]
        elif shape == "star":
            edges = [[order[0], x] for x in order[1:-1]] + [[x, order[-1]] for x in order[1:-1]]
        else:
            edges = [[order[j], order[k]] for j in range(n) for k in rnd.sample(range(j + 1, min(n, j + 40)), min(2, max(0, min(n, j + 40) - j - 1)))]
        cycle = []
        if i % 6 >= 3:
            if shape == "path":
                j = rnd.choice([0, n // 2])
                cycle = order[j:] + [order[j]]
                edges.append([order[-1], order[j]])
            else:
                edges.append([order[-1], order[-1]])
                cycle = [order[-1], order[-1]]
        rnd.shuffle(edges)
        nodes = order[:]
        rnd.shuffle(nodes)
        _graph_record(w, [None] + ["n%d" % k for k in order], nodes, edges, runs=1, large=dict(hint=[] if cycle else order, cycle=cycle))
