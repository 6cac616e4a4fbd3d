"""Drivers for argument checks, attribute declarations, memory amounts, small helpers, logging and text_at_offsets."""
import abc
import collections
import importlib
import io
import numbers
import logging
import os
import pickle
import subprocess
import sys
import types
from decimal import Decimal
from fractions import Fraction
from pathlib import Path

MESSAGES = [[], ["plain"], [" "], ["\u00e9\n\t{}"], ["{0} {x}"], ["\\n"]]
TEMPLATES = [(["at least ", " but got ", ""], None), (["", ""], None), (["a 100 ", "!"], None)]


def kind(e):
    for t in (ValueError, TypeError, AssertionError):
        if isinstance(e, t):
            return t.__name__
    return type(e).__name__


def result(r):
    return "ok" if r[0] == "ok" else kind(r[2]) if r[0] == "err" else r[0]


# --------------------------------------------------------------------------- argument checks
def make_classes(rnd, bases):
    """Real classes for a hierarchy: bases[i] are those of class i+1. Some hierarchies are of real bases, some registered."""
    n = len(bases)
    virtual = rnd.random() < 0.3
    strange = rnd.random() < 0.3
    ns = dict(_true=True)
    ns["__bool__" if rnd.random() < 0.6 else "__len__"] = lambda self: (1 if self._true else 0) if "__len__" in ns else bool(self._true)
    if "__len__" in ns:
        ns["__len__"] = lambda self: 1 if self._true else 0
    else:
        ns["__bool__"] = lambda self: bool(self._true)
    if strange:
        ns["__eq__"] = lambda self, o: True
        ns["__hash__"] = lambda self: 7
    out = [object]
    for i, bs in enumerate(bases):
        bs = sorted(bs, reverse=True)
        meta = abc.ABCMeta if virtual or rnd.random() < 0.2 else type
        if virtual:
            c = abc.ABCMeta("C%d" % (i + 1), (object,), dict(ns))
            for b in bs:
                out[b].register(c)
        else:
            metas = [type(out[b]) for b in bs]
            if abc.ABCMeta in metas:
                meta = abc.ABCMeta
            c = meta("C%d" % (i + 1), tuple(out[b] for b in bs) or (object,), dict(ns))
        out.append(c)
    out.append(type(None))
    return out


def ancestors(bases):
    n = len(bases)
    anc = [{0}]
    for i, bs in enumerate(bases):
        a = {0, i + 1}
        for b in bs:
            a |= anc[b]
        anc.append(a)
    anc.append({0, n + 1})
    return [sorted(a) for a in anc]


def class_info(classes, f):
    return classes[f["c"]] if f["k"] == "class" else tuple(class_info(classes, g) for g in f["of"])


def value(classes, v):
    if v["none"]:
        return None
    x = classes[v["cls"]]()
    x._true = v["truthy"]
    return x


def checks_replay(w):
    from vistautils import preconditions as p
    rnd = w.rnd
    for c in w.input["cases"]:
        classes = make_classes(rnd, c["bases"])
        info = class_info(classes, c["info"])
        x = value(classes, c["x"])
        w.doing(c)
        for name, fn, want in [("check_isinstance", p.check_isinstance, c["inst"]), ("check_opt_isinstance", p.check_opt_isinstance, c["opt"])]:
            r = w.call(fn, x, info)
            if (r[0] == "ok") != want or (r[0] == "ok" and r[1] is not x) or (r[0] != "ok" and result(r) != "TypeError"):
                w.mismatch("%s of an instance of class %s (%s) with classes %s of hierarchy %s gives %s, the specification says %s" % (
                    name, c["x"]["cls"], c["x"], c["info"], c["bases"], r[:2], want), case=c)
        if w.full():
            return


BUILTIN = [object, int, bool, str, list, tuple, type(None), float, dict, collections.OrderedDict, Exception, ValueError, UnicodeError, Path]
BUILTIN_ANC = [[0], [0, 1], [0, 1, 2], [0, 3], [0, 4], [0, 5], [0, 6], [0, 7], [0, 8], [0, 8, 9], [0, 10], [0, 10, 11], [0, 10, 11, 12], [0, 13]]
BUILTIN_VALUES = [(1, 0), (1, 5), (1, -1), (2, True), (2, False), (3, ""), (3, "x"), (3, "None"), (4, []), (4, [0]), (5, ()), (5, (None,)), (6, None), (7, 0.0), (7, float("nan")),
                  (7, 1.5), (8, {}), (8, {1: 2}), (9, collections.OrderedDict()), (9, collections.OrderedDict(a=1)), (10, Exception()), (11, ValueError("x")), (13, Path("."))]
# things check_in compares: same number, equal values
EQUALS = {1: [1, 1.0, True, Fraction(1), Decimal(1)], 2: ["a"], 3: [0, 0.0, False], 4: [None], 5: ["b"], 6: [(1, 2), (1.0, 2)], 7: ["ab"], 8: [""], 9: [b"a"], 10: [frozenset([1])]}
UNHASHABLE = {11: [[1], [1.0]], 12: [{"a": 1}], 13: [[]]}


def containers(rnd, q, hashable):
    k = rnd.choice(["list", "tuple", "iter", "gen", "deque"] + (["set", "frozenset", "dict", "keys"] if hashable else []))
    return {"list": lambda: list(q), "tuple": lambda: tuple(q), "iter": lambda: iter(list(q)), "gen": lambda: (x for x in q), "deque": lambda: collections.deque(q),
            "set": lambda: set(q), "frozenset": lambda: frozenset(q), "dict": lambda: {x: None for x in q}, "keys": lambda: {x: 1 for x in q}.keys()}[k]()


class Knowing:
    def __init__(self, q):
        self.q = q

    def __contains__(self, x):
        return any(x is y or x == y for y in self.q)

    def __iter__(self):
        return iter(["several things"])


def random_info(rnd, n, depth=2):
    if depth == 0 or rnd.random() < 0.6:
        return dict(k="class", c=rnd.randrange(n), of=[])
    return dict(k="tuple", c=0, of=[random_info(rnd, n, depth - 1) for _ in range(rnd.choice([0, 1, 1, 2, 3]))])


def among(rnd, xs, more):
    for x in more:
        xs.insert(rnd.randint(0, len(xs)), x)
    return xs


def checks_record(w):
    from vistautils import preconditions as p
    rnd = w.rnd
    for n in range(w.input["rounds"]):
        if rnd.random() < 0.5:
            classes, anc = BUILTIN, BUILTIN_ANC

            def pick():
                c, v = rnd.choice(BUILTIN_VALUES)
                return v, dict(none=v is None, truthy=True if (isinstance(v, float) and v != v) else c in (10, 11, 13) or v not in (0, "", [], (), None, {}, False), cls=c)
        else:
            k = rnd.randint(1, 6)
            bases = [sorted(rnd.sample(range(1, i + 1), rnd.randint(0, min(i, 2)))) if i else [] for i in range(k)]
            classes, anc = make_classes(rnd, bases), ancestors(bases)

            def pick():
                d = dict(none=rnd.random() < 0.2, truthy=rnd.random() < 0.5, cls=rnd.randint(1, k))
                if d["none"]:
                    d.update(truthy=False, cls=k + 1)
                return value(classes, d), d
        op = rnd.choice(["not_none", "arg", "state", "args_none", "args_not_none", "isinstance", "opt_isinstance", "all_isinstance", "issubclass", "in"])
        info = random_info(rnd, len(classes))
        real_info = class_info(classes, info)
        rec = dict(op=op, anc=anc, info=info, xs=[], msg=[], args=[], same=False, text="")
        if op == "in":
            table = dict(EQUALS)
            hashable = rnd.random() < 0.7
            if not hashable:
                table.update(UNHASHABLE)
            rec["item"] = rnd.choice(list(table))
            rec["legal"] = [rnd.choice(list(table)) for _ in range(rnd.choice([0, 1, 2, 5, 11, 15] * 4 + [100]))]
            item = rnd.choice(table[rec["item"]])
            legal = [rnd.choice(table[i]) for i in rec["legal"]]
            cont = containers(rnd, legal, hashable)
            z = rnd.random()
            if z < 0.12:
                # a container which knows by itself what is in it
                own = rec["legal"]
                cont = Knowing([x for i in own for x in table[i]])
            elif z < 0.24:
                # text: what is in it is any part of it
                cont = rnd.choice(["ab", "a", "", "ba", "aab", "b"])
                words = {2: "a", 5: "b", 7: "ab", 8: ""}
                rec["item"] = rnd.choice(list(words))
                rec["legal"] = [i for i, x in words.items() if x in cont]
                item = words[rec["item"]]
            w.doing(("check_in", repr(item), repr(legal)))
            r = w.call(p.check_in, item, cont, *([rnd.choice(["size", ""])] if rnd.random() < 0.4 else []))
        else:
            many = op in ("args_none", "args_not_none", "all_isinstance")
            picks = [pick() for _ in range(rnd.choice([0, 1, 2, 3, 6] * 6 + [20, 100]) if many else 1)]
            if many and rnd.random() < 0.5 and picks:
                picks = among(rnd, [picks[0]] * (len(picks) + rnd.choice([0, 0, 90])), [pick() for _ in range(rnd.choice([0, 1]))]) if rnd.random() < 0.5 else [x for x in picks if x[1]["none"] == (op == "args_none")]
            rec["xs"] = [d for _, d in picks]
            vs = [v for v, _ in picks]
            rec["msg"] = rnd.choice(MESSAGES)
            kw = dict(msg=rec["msg"][0]) if rec["msg"] else {}
            w.doing((op, repr(vs)[:300], repr(real_info)[:300]))
            if op == "not_none":
                r = w.call(p.check_not_none, vs[0], *kw.values())
                rec["same"] = r[0] == "ok" and r[1] is vs[0]
            elif op == "arg":
                if rnd.random() < 0.5:
                    rec["msg"] = rnd.choice(TEMPLATES)[0]
                    rec["args"] = [rnd.choice(["1", "x", "", "%s", "\u00e9", "%%", "100%% %d", "{0}", "\\n", "y" * 300]) for _ in rec["msg"][1:]]
                    r = w.call(p.check_arg, vs[0], rnd.choice(["%s", "%s", "%s"]).join(rec["msg"]), tuple(rec["args"]))
                else:
                    if rec["xs"][0]["truthy"] and rnd.random() < 0.3:
                        # no message is needed, nor can these be put together
                        rec["msg"] = []
                        kw = dict(zip("mn", rnd.choice([("100%",), ("%d", ("x",)), ("%s %s", ("x",)), ("x", ("y",)), (object(),), ("%(a)s", ("x",))])))
                    r = w.call(p.check_arg, vs[0], *kw.values())
            elif op == "state":
                r = w.call(p.check_state, vs[0], *kw.values())
            elif op == "args_none":
                r = w.call(p.check_args_are_none, *vs, **kw)
            elif op == "args_not_none":
                r = w.call(p.check_args_not_none, *vs, **kw)
            elif op == "isinstance":
                r = w.call(p.check_isinstance, vs[0], real_info)
                rec["same"] = r[0] == "ok" and r[1] is vs[0]
            elif op == "opt_isinstance":
                r = w.call(p.check_opt_isinstance, vs[0], real_info)
                rec["same"] = r[0] == "ok" and r[1] is vs[0]
            elif op == "all_isinstance":
                r = w.call(p.check_all_isinstance, vs if rnd.random() < 0.4 else iter(vs), real_info)
            else:
                c = classes[rec["xs"][0]["cls"]]
                r = w.call(p.check_issubclass, c, real_info)
                rec["same"] = r[0] == "ok" and r[1] is c
        rec["res"] = result(r)
        if r[0] == "err":
            rec["text"] = str(r[2])
        if op != "in":
            rec.update(item=0, legal=[])
        w.record(rec)


# --------------------------------------------------------------------------- attribute declarations
KINDS = ["inst", "opt", "dflt", "optdflt", "factory", "imm", "optimm", "builder", "nonempty"]


class FalseList(list):
    def __bool__(self):
        return False


class TrueList(list):
    def __bool__(self):
        return True


class Declared:
    """Objects of classes with one attribute each, for a history."""

    def __init__(self, w):
        import attr
        import immutablecollections
        from vistautils import attrutils as a
        self.w, self.rnd = w, w.rnd
        self.types = self.rnd.choice([(int, 5, True, "x"), (str, "x", "", 3), ((int, str), 0, "s", 1.5), (list, [1], [], (1,)), (dict, {}, {1: 2}, [])])
        t, self.fits, self.sub, self.other = self.types
        self.default = self.fits if self.rnd.random() < 0.5 else self.sub
        self.src = []
        self.objs = []
        self.elems = self.rnd.choice([{1: "a", 2: 2}, {1: 0, 2: ""}, {1: None, 2: False}, {1: (), 2: float("inf")}])
        name = self.rnd.choice(["ImmutableSet", "ImmutableSet", "ImmutableDict", "ImmutableSetMultiDict", "ImmutableListMultiDict"])
        if name != "ImmutableSet":
            self.elems = self.rnd.choice([{1: ("a", None), 2: ("b", 0)}, {1: (0, ""), 2: (None, ())}])
        self.first = {1: self.elems[1]}
        iset = self.coll = getattr(immutablecollections, name)
        mk = [a.attrib_instance_of(t), a.attrib_opt_instance_of(t), a.attrib_instance_of(t, default=self.default), a.attrib_opt_instance_of(t, default=self.default), a.attrib_factory(self.rnd.choice([list, set])),
              a.attrib_immutable(iset), a.attrib_opt_immutable(iset), a.attrib_private_immutable_builder(iset), attr.attrib(validator=a.non_empty)]
        if self.rnd.random() < 0.3:
            mk[1] = attr.attrib(default=None, validator=a.opt_instance_of(t))
        style = dict(frozen=self.rnd.random() < 0.5, slots=self.rnd.random() < 0.5)
        self.cls = {k: attr.make_class("K", {"x": m}, **style) for k, m in zip(KINDS, mk)}

    def make(self, k, a):
        fits = self.fits
        val = {"null": None, "fits": fits, "sub": self.sub, "other": self.other}.get(a)
        if k in ("imm", "optimm", "builder"):
            val = {"null": None, "some": list(self.elems.values()), "none": [], "mutable": self.src, "other": 17}.get(a)
            if a == "some":
                val = self.rnd.choice([list, iter, tuple, set, self.coll.of, lambda x: dict.fromkeys(x).keys() if self.coll.__name__ != "ImmutableSet" else tuple(x)])(val)
            elif a == "none":
                val = self.rnd.choice([list, tuple, set, iter, self.coll.of])(val)
        elif k == "nonempty":
            z = self.rnd.randint(0, 5)
            # (what a collection says of its truth is not what it says of its length)
            val = {"null": None, "some": [[0], "x", {1: 2}, (None,), FalseList([1]), range(3)][z], "none": [[], "", {}, (), TrueList(), range(0)][z]}.get(a)
        r = self.w.call(self.cls[k], *([] if a == "absent" else [val]))
        if r[0] != "ok":
            return "err", ""
        x = r[1].x
        if k in ("imm", "optimm"):
            v = "collected" if isinstance(x, self.coll) else "?"
            if v == "collected" and a in ("absent", "null"):
                v = "empty" if len(x) == 0 else "?"
        elif k == "builder":
            v = "fresh" if hasattr(x, "build") and not any(x is o[1] for o in self.objs) else "?"
        elif k == "factory" and a == "absent":
            v = "fresh" if isinstance(x, (list, set)) and not x and not any(x is o[1] for o in self.objs) else "?"
        elif a == "absent":
            v = "null" if x is None else "default" if k in ("dflt", "optdflt") and x is self.default else "?"
        elif x is val:
            v = "null" if val is None and k != "factory" else "given"
        else:
            v = "?"
        self.objs.append((k, x, v))
        return "ok", v

    def add(self, i, e):
        k, x, v = self.objs[i - 1]
        if isinstance(x, list):
            x.append(self.elems[e])
        elif isinstance(x, set) or hasattr(x, "add"):
            x.add(self.elems[e])
        else:
            x.put(*self.elems[e])

    def feed(self, e):
        (self.src.append if isinstance(self.src, list) else self.src.add)(self.elems[e])

    def has(self):
        out = []
        for k, x, v in self.objs:
            if v == "fresh":
                x = x.build() if k == "builder" else x
            elif v not in ("collected", "empty"):
                out.append([])
                continue
            if hasattr(x, "items"):
                x = list(x.items())
            out.append(sorted({i for i, e in self.elems.items() for y in x if y == e}) if len(set(x)) == len([y for y in set(x) if y in self.elems.values()]) else [99])
        return out


def attrs_replay(w):
    for n, h in enumerate(w.input["histories"]):
        d = Declared(w) if n % 150 == 0 else d  # noqa: F821
        d.objs, d.src, d.elems = [], w.rnd.choice([list, set])(), d.first
        for i, s in enumerate(h["h"]):
            w.doing((i, [(q["op"], q["k"], q["a"], q["i"], q["e"]) for q in h["h"]]))
            if s["op"] == "make":
                res, v = d.make(s["k"], s["a"])
                want = len([1 for o in s["objs"]])
                if len(d.objs) != want or (res == "ok" and s["objs"][-1]["v"] != v):
                    w.mismatch("attribute %s given %s: gives %s %s, the specification %s" % (s["k"], s["a"], res, v, s["objs"][-1:] if want == len(d.objs) or res == "err" else "an error"), history=h["h"][:i + 1])
                    break
            else:
                r = w.call(d.add, s["i"], s["e"]) if s["op"] == "add" else w.call(d.feed, s["e"])
                if r[0] != "ok":
                    w.mismatch("%s fails with %s" % (s["op"], r[1]), history=h["h"][:i + 1])
                    break
            got = w.call(d.has)
            if got[0] != "ok" or got[1] != [sorted(o["has"]) for o in s["objs"]]:
                w.mismatch("after %s the objects hold %s, the specification has %s" % ([(q["op"], q["k"], q["a"], q["i"], q["e"]) for q in h["h"][:i + 1]], got[1], s["objs"]), history=h["h"][:i + 1])
                break
        if w.full():
            return


ARGS = {"inst": ["absent", "null", "fits", "sub", "other"], "imm": ["absent", "null", "some", "none", "mutable", "other"], "builder": ["absent", "some"], "nonempty": ["absent", "null", "some", "none"]}


class LikeCollection(list):
    """Has what an immutable collection has, but is none."""
    @classmethod
    def of(cls, x):
        return cls(x)

    @classmethod
    def empty(cls):
        return cls()

    @classmethod
    def builder(cls):
        return cls()

    def build(self):
        return self


def declare(w, k, collection):
    import immutablecollections as ic
    from vistautils import attrutils as a
    t = w.rnd.choice([ic.ImmutableSet, ic.ImmutableDict, ic.ImmutableSetMultiDict, ic.ImmutableListMultiDict] if collection else [LikeCollection, LikeCollection, list, dict, tuple, frozenset, int])
    make = dict(imm=a.attrib_immutable, optimm=a.attrib_opt_immutable, builder=a.attrib_private_immutable_builder, inst=a.attrib_instance_of, opt=a.attrib_opt_instance_of, factory=a.attrib_factory)[k]
    w.doing("declare %s of %s" % (k, t))
    return w.call(make, t)[0]


def attrs_record(w):
    rnd = w.rnd
    for n in range(w.input["histories"]):
        if n % 8 == 0:
            d = Declared(w)
        d.objs, d.src = [], rnd.choice([list, set])()
        w.record(dict(op="new"))
        for _ in range(rnd.choice([6, 15])):
            z = rnd.random()
            fresh = [i for i, o in enumerate(d.objs, 1) if o[2] == "fresh"]
            rec = dict(op="make", k="", a="", i=0, e=rnd.randint(1, 2), v="")
            if z < 0.5 or (0.55 <= z < 0.8 and not fresh):
                k = rnd.choice(KINDS)
                rec.update(k=k, a=rnd.choice(ARGS.get(k) or ARGS["imm" if k == "optimm" else "inst"]))
                w.doing(rec)
                rec["res"], rec["v"] = d.make(rec["k"], rec["a"])
            elif z < 0.55:
                rec.update(op="declare", k=rnd.choice(["imm", "optimm", "builder", "inst", "opt", "factory"]), a=rnd.choice(["collection", "other"]))
                rec["res"] = declare(w, rec["k"], rec["a"] == "collection")
            elif z < 0.8:
                rec.update(op="add", i=rnd.choice(fresh))
                rec["res"] = w.call(d.add, rec["i"], rec["e"])[0]
            else:
                rec["op"] = "feed"
                rec["res"] = w.call(d.feed, rec["e"])[0]
            got = w.call(d.has)
            rec["has"] = got[1] if got[0] == "ok" else [[99]] * len(d.objs)
            w.record(rec)


# --------------------------------------------------------------------------- memory amounts
def digits(n):
    return [] if n == 0 else list(str(n))


def parse(w, text):
    from vistautils.memory_amount import MemoryAmount
    r = w.call(MemoryAmount.parse, text)
    if r[0] != "ok":
        return dict(res=type(r[2]).__name__ if r[0] == "err" else r[0], amount=[], unit="")
    return dict(res="ok", amount=digits(r[1].amount) if type(r[1].amount) is int else ["?"], unit=r[1].unit.name)


def memory_replay(w):
    from vistautils.memory_amount import MemoryUnit
    for c in w.input["cases"]:
        t = "".join(c["text"])
        w.doing(repr(t))
        r = parse(w, t)
        if c["vague"]:
            continue
        if (r["res"] == "ok") != c["ok"] or (c["ok"] and (r["amount"] != c["amount"] or r["unit"] != c["unit"])):
            w.mismatch("parse(%r) gives %s, the specification %s" % (t, r, c if c["ok"] else "refuses it"), case=c)
        u = w.call(MemoryUnit.parse, t)
        if (u[0] == "ok") != (c["u"] != "") or (u[0] == "ok" and u[1].name != c["u"]):
            w.mismatch("unit %r gives %s, the specification %r" % (t, u[:2], c["u"]), case=c)
        if w.full():
            return


def memory_record(w):
    from vistautils.memory_amount import MemoryAmount, MemoryUnit
    rnd = w.rnd
    units = list(MemoryUnit)
    for n in range(w.input["rounds"]):
        op = rnd.choice(["parse", "parse", "unit", "make", "same"])
        num = rnd.choice([rnd.randint(0, 20), rnd.randint(1, 5000), 10 ** rnd.randint(1, 30) + rnd.randint(-1, 1), 0, 1, 1024])
        ds = ["0"] * rnd.choice([0, 0, 0, 1, 3]) + list(str(num))
        rec = dict(op=op, text=[], res="", amount=[], unit="", digits=ds, sign=1, int=True, given="", given2="", digits2=[], eq=False, hasheq=False)
        if op == "parse":
            t = "".join(ds) + rnd.choice(["", " ", "", " ", "  ", "_", "\t"] if rnd.random() < 0.5 else ["", " "]) + rnd.choice("KkMmGgTt" if rnd.random() < 0.8 else "BbxXP10") \
                + rnd.choice(["", "", "b", "B", "ib"])
            z = rnd.random()
            if z < 0.05:
                t = rnd.choice([" ", "-", "+", "x", "1."]) + t
            elif z < 0.1:
                i = rnd.randrange(len(t))
                t = t[:i] + rnd.choice(["", " ", "k", "1", ".", "_", ",", "'", "+", "e", "\u00a0", "\u00b2", "\n", "x", "-", "0x"]) + t[rnd.choice([i, i + 1]):]
            elif z < 0.13:
                # numbers written in ways which are not meant
                t = rnd.choice(["1_000", "1,000", "1.5", "1e3", "0x10", "+5", "\u00b2", "1 000", "1'000", "\u2167", "0b1", "1__0", "_1", "1_", "\u00bd", "05"]) + rnd.choice(["K", "k", " MB", "g", "Tb"])
            rec["text"] = list(t)
            w.doing(repr(t))
            rec.update(parse(w, t))
        elif op == "unit":
            t = rnd.choice(["k", "K", "m", "M", "g", "G", "t", "T", "", "B", "KB", "kb", " K", "K ", "KILOBYTES", "\u212a", "P", "1", "KM", "None"])
            rec["text"] = list(t)
            r = w.call(MemoryUnit.parse, t)
            rec.update(res="ok", unit=r[1].name) if r[0] == "ok" else rec.update(res="RuntimeError" if isinstance(r[2], RuntimeError) else r[1])
        elif op == "make":
            rec["sign"] = rnd.choice([1, 1, 1, -1])
            rec["int"] = rnd.random() < 0.85
            v = num * rec["sign"]
            if not rec["int"]:
                v = rnd.choice([str(v), v + 0.5, None, Fraction(v), [v], Decimal(v)])
            u = rnd.choice(units)
            rec["given"] = u.name
            r = w.call(MemoryAmount, v, u) if rnd.random() < 0.5 else w.call(MemoryAmount, amount=v, unit=u)
            rec["res"] = "ok" if r[0] == "ok" else "err"
            if r[0] == "ok":
                rec.update(amount=digits(r[1].amount), unit=r[1].unit.name)
                if w.call(setattr, r[1], "amount", 3)[0] == "ok" or (rec["unit"] != u.name):
                    rec["amount"] = ["?"]
        else:
            num = num or 1
            num2 = num if rnd.random() < 0.6 else num + rnd.choice([1, 1023 * num])
            u, u2 = rnd.choice(units), rnd.choice(units)
            if rnd.random() < 0.6:
                u2 = u
            a = MemoryAmount(num, u)
            b = MemoryAmount.parse("%d%s%s" % (num2, rnd.choice(["", " "]), u2.name[0] if rnd.random() < 0.5 else u2.name[0].lower() + "b")) if rnd.random() < 0.6 else MemoryAmount(num2, u2)
            if rnd.random() < 0.2:
                a = pickle.loads(pickle.dumps(a))
            rec.update(digits=list(str(num)), digits2=list(str(num2)), given=u.name, given2=u2.name, eq=a == b and not a != b, hasheq=hash(a) == hash(b))
        w.record(rec)


# --------------------------------------------------------------------------- small helpers
class Odd:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s

    def __str__(self):
        return "STR"

    def __format__(self, spec):
        return "FORMAT"


def texts_replay(w):
    from vistautils.misc_utils import str_list_limited, strip_extension
    rnd = w.rnd
    for c in w.input["cases"]:
        q = c["q"]
        objs = [Odd(x) for x in q]
        for src in (list(objs), iter(objs), tuple(objs)):
            r = w.call(str_list_limited, src, c["n"])
            if r[0] != "ok" or r[1] != c["limited"]:
                w.mismatch("str_list_limited of %s with limit %d gives %r, the specification %r" % (q, c["n"], r[1], c["limited"]), case=c)
        s = "".join(q)
        if s.rpartition(".")[0].strip(".") or "." not in s:
            r = w.call(strip_extension, s)
            if r[0] != "ok" or r[1] != "".join(c["stripped"]):
                w.mismatch("strip_extension(%r) gives %r" % (s, r[1]), case=c)
        if w.full():
            return


class World:
    """Packages on the disk, under names of their own for every case (modules are loaded once in a process)."""
    N = 0

    def __init__(self, base, paths):
        World.N += 1
        self.tag = "_%d_%d" % (os.getpid(), World.N)
        self.values = {}
        pk = {p for p in paths}
        for p in sorted(pk, key=len):
            v = self.values[p] = 1 << paths.index(p)
            d = Path(base, *self.real(p))
            d.mkdir()
            (d / "__init__.py").write_text("v = %s\n" % (True if v == 1 else v))
        importlib.invalidate_caches()

    def real(self, p):
        return (p[0] + self.tag,) + tuple(p[1:])

    def dotted(self, p):
        return ".".join(self.real(p))


class Number(int):
    pass


def evaluate(w, world, ctx, ms, ts, asked):
    from vistautils.misc_utils import eval_in_context_of_modules
    rnd = w.rnd
    terms = [t["p"][0] if t["k"] == "name" else world.dotted(t["p"]) + ".v" for t in ts]
    expr = (" + " if rnd.random() < 0.7 else "+").join(terms)
    if rnd.random() < 0.3:
        # parts of an expression which have names of their own see the others, too
        expr = rnd.choice(["sum([%s])", "sum(x_ for x_ in [%s])", "(lambda: sum((%s,)))()", "sum([f_() for f_ in [lambda: [%s]] for _ in 'a'][0])",
                           "[sum([%s]) for _ in 'ab'][1]", "{k_: sum([%s]) for k_ in 'ab'}['b']"]) % ", ".join(terms)
    if not asked:
        typ = rnd.choice([str, list, float])
    else:
        typ = rnd.choice([int, int, object, numbers.Integral])
    wrap = None
    if asked and rnd.random() < 0.3:
        # values of other types come as they are
        wrap, typ, back = rnd.choice([("' V\u00e9B %%d ' %% (%s)", str, lambda v: v[5:-1] if v[:5] == " V\u00e9B " and v[-1:] == " " else "-7"),
                                      ("[[], (%s), 0]", list, lambda v: v[1] if v[0] == [] and v[2] == 0 and len(v) == 3 else -7),
                                      ("(None, '', (%s))", tuple, lambda v: v[2] if v[:2] == (None, "") else -7)])
        expr = wrap % expr
    given = dict(ctx)
    if rnd.random() < 0.3:
        given["__name__"] = "here"
    if rnd.random() < 0.3:
        given = types.MappingProxyType(dict(given))
    if rnd.random() < 0.3:
        # (what is an integer in a wider sense is one, too)
        given = {k: Number(v) if type(v) is int else v for k, v in given.items()}
    before = dict(given)
    mods = [world.dotted(m) for m in ms]
    if mods and rnd.random() < 0.05:     # the same again and again
        mods = mods[:1] * rnd.choice([15, 70, 130]) + mods
    r = w.call(eval_in_context_of_modules, expr, given, context_modules=mods if rnd.random() < 0.6 else tuple(mods), expected_type=typ)
    same = dict(given) == before
    if r[0] == "ok" and rnd.random() < 0.2:
        # values that are false
        e, t = rnd.choice([("''", str), ("[]", list), ("0", int), ("False", bool), ("None", type(None)), ("0.0", float)])
        r2 = w.call(eval_in_context_of_modules, "((%s), %s)[1]" % (expr, e), given, context_modules=mods, expected_type=t)
        if r2[0] != "ok" or type(r2[1]) is not t or r2[1] != eval(e):
            w.mismatch("an expression whose value is %s gives %r" % (e, r2[1:]))
        other = rnd.choice([x for x in (str, list, int, dict, float, type(None)) if not isinstance(eval(e), x)])
        r2 = w.call(eval_in_context_of_modules, "((%s), %s)[1]" % (expr, e), given, context_modules=mods, expected_type=other)
        if r2[0] != "err":
            w.mismatch("an expression whose value is %s is taken for one of type %s" % (e, other))
    if r[0] == "ok":
        return "ok", int(back(r[1]) if wrap else r[1]), same
    e = r[2]
    res = "import" if isinstance(e, ImportError) else "name" if isinstance(e, (NameError, AttributeError)) else "type" if isinstance(e, (TypeError, RuntimeError)) else r[1]
    return res, 0, same


PATHS = [("p",), ("p", "q"), ("p", "q", "r"), ("p", "s"), ("u",)]


def eval_replay(w):
    base = w.scratch("mods")
    sys.path.insert(0, base)
    for c in w.input["cases"]:
        world = World(base, PATHS)
        ctx = {n: 32 if n == "x" else 64 for n in c["bound"]}
        w.doing(c)
        res, val, same = evaluate(w, world, ctx, c["ms"], c["ts"], c["asked"])
        if res != c["want"]["res"] or (res == "ok" and val != c["want"]["val"]) or not same:
            w.mismatch("evaluating %s with modules %s and names %s gives %s, the specification %s%s" % (
                c["ts"], c["ms"], c["bound"], (res, val), c["want"], "" if same else " (context changed)"), case=c)
        if w.full():
            return


class Outer:
    class Inner:
        class Deep:
            pass

    def method(self):
        class Local:
            pass
        return Local


def misc_record(w):
    from vistautils import class_utils, misc_utils as m
    rnd = w.rnd
    base = w.scratch("mods")
    sys.path.insert(0, base)
    ALPH = ["a", "b", ".", " ", "\u00e9", "tar", "gz", "\n", "-", ","]
    for n in range(w.input["rounds"]):
        op = rnd.choice(["limited", "strip", "name", "path", "withid", "scored"] + (["eval"] if n % 2 else []))
        rec = dict(op=op, n=0, q=[], res="", out="", module="", path=[], good=False, idstr=True, id="", none=False, float=True, ms=[], ts=[], ctx=[], world=[], asked=True, val=0, ctxsame=True)
        if op == "limited":
            items = [rnd.choice(["x", "", 1, None, "it's", 'q"', 1.5, (1,), [2, [3]], {}, "\n", "\u00e9", b"x", True, Odd("o"), "and", ", "]) for _ in range(rnd.choice([0, 1, 2, 3, 9, 10, 11, 12, 40, 100]))]
            rec["q"] = [repr(x) for x in items]
            rec["n"] = rnd.choice([-1, 0, 1, 2, 3, 10, len(items), len(items) - 1, len(items) + 1])
            src = rnd.choice([list, tuple, iter, lambda q: (x for x in q), lambda q: collections.deque(q), lambda q: dict(enumerate(q)).values()])(items)
            w.doing(("limited", rec["q"], rec["n"]))
            r = w.call(m.str_list_limited, src, rec["n"])
            rec.update(res=result(r), out=r[1] if r[0] == "ok" else "")
        elif op == "strip":
            q = [rnd.choice(ALPH) for _ in range(rnd.choice([0, 1, 3, 6, 10]))]
            q = list("".join(q))
            last = max([i for i, c in enumerate(q) if c == "."], default=-1)
            if last >= 0 and not "".join(q[:last]).strip("."):
                q = ["f"] + q
            rec["q"] = q
            r = w.call(m.strip_extension, "".join(q))
            rec.update(res=result(r), out=list(r[1]) if r[0] == "ok" and isinstance(r[1], str) else ["?"])
        elif op == "name":
            z = rnd.random()
            obj = None
            if z < 0.3:
                c = rnd.choice([int, str, dict, list, type, object, bool, Exception, type(None), frozenset])
                mod, path = "builtins", [c.__name__]
                obj = {int: 3, str: "x", dict: {}, list: [], type: int, object: object(), bool: True, Exception: Exception(), type(None): None, frozenset: frozenset()}[c]
            elif z < 0.5:
                mod, path, c = rnd.choice([(__name__, ["Outer"], Outer), (__name__, ["Outer", "Inner"], Outer.Inner), (__name__, ["Outer", "Inner", "Deep"], Outer.Inner.Deep),
                                           ("collections", ["OrderedDict"], collections.OrderedDict), ("decimal", ["Decimal"], Decimal),
                                           (__name__, ["Outer", "method", "<locals>", "Local"], Outer().method())])
            elif z < 0.8:
                mod = rnd.choice(["m", "a.b.c", "__main__", "builtins2", "x.builtins", "builtins.x", "", "d_misc"])
                path = [rnd.choice(["A", "B", "a b", "\u00e9", "builtins", "int"]) for _ in range(rnd.choice([1, 2, 3]))]
                c = type(path[-1], (), {"__qualname__": ".".join(path), "__module__": mod or None})
            else:
                mod = rnd.choice(["json", "os.path", "xml.dom.minidom", "vistautils.scripts", "collections.abc"])
                c = importlib.import_module(mod)
                mod = c.__name__
                path = [mod.split(".")[-1]]
                mod = ".".join(mod.split(".")[:-1])
                r = w.call(class_utils.fully_qualified_name, c)
                rec.update(module=mod, path=path, res=result(r), out=r[1] if r[0] == "ok" else "")
                w.record(rec)
                continue
            if rnd.random() < 0.5:
                r = w.call(class_utils.fully_qualified_name, c)
            else:
                if obj is None and c is not type(None):
                    obj = c()
                r = w.call(class_utils.fully_qualified_name_of_type, obj)
            rec.update(module=mod, path=path, res=result(r), out=r[1] if r[0] == "ok" else "")
        elif op == "path":
            s = rnd.choice(["", "a", "a/b", "/", "/x/../y", "~", "a b", "\u00e9", "./a", "a/"])
            given = Path(s) if rnd.random() < 0.5 else s
            r = w.call(m.pathify, given)
            rec.update(res=result(r), good=r[0] == "ok" and isinstance(r[1], Path) and r[1] == Path(s) and (r[1] is given or isinstance(given, str)))
        elif op == "withid":
            rec["idstr"] = rnd.random() < 0.8
            rec["id"] = rnd.choice(["", "a", " ", "0", "doc 1", "None"])
            rec["none"] = rnd.random() < 0.25
            ident = rec["id"] if rec["idstr"] else rnd.choice([3, None, b"a", ["a"], 0])
            item = None if rec["none"] else rnd.choice([0, "", [], False, "x", Odd("y")])
            r = w.call(m.WithId, ident, item) if rnd.random() < 0.5 else w.call(m.WithId, item=item, id=ident)
            rec["res"] = result(r)
            if r[0] == "ok":
                rec["good"] = r[1].id is ident and r[1].item is item and r[1] == m.WithId(ident, item) and r[1] != m.WithId(ident + "x", item) \
                    and w.call(setattr, r[1], "id", "z")[0] == "err"
        elif op == "scored":
            rec["float"] = rnd.random() < 0.7
            rec["none"] = rnd.random() < 0.25
            sc = rnd.choice([0.0, -1.5, 1e300, float("inf")]) if rec["float"] else rnd.choice([0, 1, None, "1.0", True, Fraction(1, 2), Decimal("1.5")])
            item = None if rec["none"] else rnd.choice([0, "", [], False, "x", Odd("y")])
            r = w.call(m.Scored, item, sc) if rnd.random() < 0.5 else w.call(m.Scored, score=sc, item=item)
            rec["res"] = result(r)
            if r[0] == "ok":
                rec["good"] = r[1].item is item and r[1].score is sc and r[1] == m.Scored(item, sc) and r[1] != m.Scored(item, 0.25) \
                    and w.call(setattr, r[1], "score", 2.0)[0] == "err"
        else:
            world = World(base, PATHS[:])
            rec["world"] = [dict(p=list(p), v=v) for p, v in world.values.items()]
            mods = [list(p) for p in PATHS] + [["z"], ["p", "z"], ["u", "p"]]
            rec["ms"] = [rnd.choice(mods[:5] if rnd.random() < 0.9 else mods) for _ in range(rnd.choice([0, 1, 2, 3]))]
            good = sorted({tuple(q[:k]) for q in rec["ms"] for k in range(1, len(q) + 1)})
            terms = [dict(k="name", p=[x]) for x in ("x", "y", "val\u00fc")] + [dict(k="mod", p=list(p)) for p in PATHS]
            tame = [t for t in terms[:2]] + [dict(k="mod", p=list(p)) for p in good]
            if rnd.random() < 0.4:
                # what was evaluated before leaves nothing behind (but for modules being attributes of their packages)
                evaluate(w, world, {"x": 1}, rnd.sample(PATHS, rnd.choice([1, 2, 5])), [dict(k="name", p=["x"])], True)
                terms = [t for t in terms if len(t["p"]) == 1]
            rec["ts"] = [rnd.choice(tame if rnd.random() < 0.7 else terms) for _ in range(rnd.choice([1, 2, 4]))]
            ctx = {x: rnd.randint(100, 999) for x in ("x", "y", "val\u00fc", "v", "q") if rnd.random() < 0.8}
            rec["ctx"] = [dict(n=k, v=v) for k, v in ctx.items()]
            rec["asked"] = rnd.random() < 0.85
            w.doing(rec)
            rec["res"], rec["val"], rec["ctxsame"] = evaluate(w, world, ctx, rec["ms"], rec["ts"], rec["asked"])
        w.record(rec)


# --------------------------------------------------------------------------- logging
LEVEL_NAMES = {50: "CRITICAL", 40: "ERROR", 30: "WARNING", 20: "INFO", 10: "DEBUG"}
INI = """[loggers]
keys=root

[handlers]
keys=h

[formatters]
keys=f

[logger_root]
level=%s
handlers=h

[handler_h]
class=StreamHandler
level=%s
formatter=f
args=(sys.stdout,)

[formatter_f]
format=%%(levelname)s %%(name)s %%(message)s
"""


class Loggers:
    N = 0

    def __init__(self, w, base):
        self.w, self.rnd, self.base = w, w.rnd, base
        self.reset()

    def reset(self):
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        root.setLevel(30)
        self.out = io.StringIO()

    def params(self, q):
        from vistautils.parameters import Parameters
        d = {"other": "value%d" % self.rnd.randint(100, 999), "ns": {"logging": {"root_level": "LOUD"}}}
        lg = {}
        if q["level"]:
            lg["root_level"] = q["level"]
            if q["level"] == "LOUD":
                lg["root_level"] = self.rnd.choice(["LOUD", "debug", "Info", "NOTSET", " INFO", "INFO ", "warn", "20", "DEBUGGING", "I"])
        if q["file"] == "there":
            f = Path(self.base, "log%d.ini" % q["flevel"])
            f.write_text(INI % (LEVEL_NAMES[q["flevel"]], LEVEL_NAMES[q["flevel"]]))
            lg["config_file"] = str(f)
        elif q["file"] == "missing":
            lg["config_file"] = str(Path(self.base, "none.ini"))
        if lg or self.rnd.random() < 0.3:
            d["logging"] = lg
        return Parameters.from_mapping(d), d["other"]

    def captured(self, fn):
        old = sys.stdout
        sys.stdout = self.out
        logging.disable(logging.NOTSET)
        at = self.out.tell()
        try:
            r = self.w.call(fn)
        finally:
            logging.disable(logging.CRITICAL)
            sys.stdout = old
        self.out.seek(at)
        return r, self.out.read()

    def configure(self, q):
        from vistautils.logging_utils import configure_logging_from
        params, mark = self.params(q)
        r, text = self.captured(lambda: configure_logging_from(params, log_params=True) if q["show"] else configure_logging_from(params))
        # a configuration file switches off loggers there are; later ones are not concerned
        logging.getLogger("vistautils.logging_utils").disabled = False
        return "ok" if r[0] == "ok" else "err", logging.getLogger().level, mark in text

    def copies(self):
        """How often a message of each level is printed now."""
        return [self.log(10 * k, count=True) for k in range(1, 6)]

    def log(self, level, count=False):
        Loggers.N += 1
        name = self.rnd.choice(["", "n%d" % Loggers.N, "a.b%d" % Loggers.N])
        msg = "message %d %s" % (Loggers.N, self.rnd.choice(["", "\u00e9", "100%", "{x}"]))
        lg = logging.getLogger(name)
        r, text = self.captured(lambda: lg.log(level, "%s", msg))
        lines = [x for x in text.splitlines() if msg in x]
        if count:
            return len(lines)
        if lines and not all(LEVEL_NAMES[level] in x and (name or "root") in x for x in lines):
            return "ok", False
        return "ok" if r[0] == "ok" else "err", bool(lines)


def logging_replay(w):
    base = w.scratch("log")
    lg = Loggers(w, base)
    for h in w.input["histories"]:
        lg.reset()
        for i, s in enumerate(h["h"]):
            w.doing((i, [q["q"] for q in h["h"]]))
            before = lg.copies() if s["res"] == "err" else []
            res, root, seen = lg.configure(s["q"])
            if before and (lg.copies() != before):
                w.mismatch("configurations %s: the last was refused, but what is printed changed from %s to %s copies of a message of each level" % (
                    [q["q"] for q in h["h"][:i + 1]], before, lg.copies()), history=h["h"][:i + 1])
                break
            if res != s["res"] or root != s["root"] or (s["q"]["file"] == "no" and seen != s["seen"]):
                w.mismatch("configurations %s: the last gives %s, root level %s, parameters %s; the specification %s" % (
                    [q["q"] for q in h["h"][:i + 1]], res, root, "shown" if seen else "not shown", s), history=h["h"][:i + 1])
                break
            got = [] if s["fresh"] else [lg.log(10 * k)[1] for k in range(1, 6)]
            if not s["fresh"] and got != s["prints"]:
                w.mismatch("configurations %s: levels printed then %s, the specification has %s" % ([q["q"] for q in h["h"][:i + 1]], got, s["prints"]), history=h["h"][:i + 1])
                break
        if w.full():
            return


def logging_record(w):
    rnd = w.rnd
    base = w.scratch("log")
    lg = Loggers(w, base)
    for n in range(w.input["histories"]):
        lg.reset()
        w.record(dict(op="new"))
        for i in range(rnd.choice([4, 10])):
            if i == 0 or rnd.random() < 0.3:
                q = dict(file=rnd.choice(["no", "no", "no", "there", "missing"]), flevel=rnd.choice([10, 20, 30, 40, 50]),
                         level=rnd.choice(["", "", "CRITICAL", "FATAL", "ERROR", "WARNING", "WARN", "INFO", "DEBUG", "LOUD"]), show=rnd.random() < 0.3)
                w.doing(q)
                before = lg.copies()
                res, root, seen = lg.configure(q)
                w.record(dict(op="configure", q=q, l=0, res=res, root=root, seen=seen, before=before, after=lg.copies()))
            else:
                l = rnd.choice([10, 20, 30, 40, 50])
                w.doing(("log", l))
                res, seen = lg.log(l)
                w.record(dict(op="log", q=dict(), l=l, res=res, root=logging.getLogger().level, seen=seen))


# --------------------------------------------------------------------------- text_at_offsets
def print_at(w, f, s, e, child=False):
    argv = [str(f), str(s), str(e)]
    if s < 0 or e < 0:
        argv = ["--"] + argv
    if child:
        p = subprocess.run([sys.executable, "-B", "-m", "vistautils.scripts.text_at_offsets"] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=os.environ["VERIF_REPO"], timeout=60)
        return "ok" if p.returncode == 0 else "err", p.stdout.decode("utf-8")
    from vistautils.scripts.text_at_offsets import main
    old, oldargv = sys.stdout, sys.argv
    sys.stdout, sys.argv = io.StringIO(), ["text_at_offsets.py"] + argv
    olderr, sys.stderr = sys.stderr, io.StringIO()
    try:
        r = w.call(main)
        out = sys.stdout.getvalue()
    finally:
        sys.stdout, sys.argv, sys.stderr = old, oldargv, olderr
    return "ok" if r[0] == "ok" else "err", out


CHARS = ["a", "b", " ", "\n", "\r", "\t", "\u00e9", "e\u0301", "\u4e2d", "\U0001f600", "\u2028", "\ufeff", "\0", "\x85", "\u0130", "\r\n"]


# what no text in UTF-8 contains
BAD_BYTES = [b"\xff", b"\xfe", b"\x80", b"\xc3", b"\xe4\xb8", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\x80", b"\xff\xfe"]


def offsets_replay(w):
    rnd = w.rnd
    d = Path(w.scratch("t"))
    for n, c in enumerate(w.input["cases"]):
        letters = dict(zip("abc", rnd.sample([x for x in CHARS if len(x) == 1], 3)))
        t = "".join(letters[x] for x in c["t"])
        f = d / ("f%d" % (n % 7))
        f.write_bytes(t.encode("utf-8"))
        w.doing((t, c["s"], c["e"]))
        res, out = print_at(w, f, c["s"], c["e"])
        if c["ok"]:
            want = "".join(letters[x] for x in c["cut"]) + "\n"
            if res != "ok" or out != want:
                w.mismatch("text %r at %d, %d: printed %r, the specification %r" % (t, c["s"], c["e"], out, want), case=c)
        elif res == "ok" and out == t[c["s"]:c["e"]] + "\n":
            w.mismatch("text %r at %d, %d: no complaint about the offsets" % (t, c["s"], c["e"]), case=c)
        if w.full():
            return


def offsets_record(w):
    rnd = w.rnd
    d = Path(w.scratch("t"))
    for n in range(w.input["rounds"]):
        t = "".join(rnd.choice(CHARS if rnd.random() < 0.7 else ["x"]) for _ in range(rnd.choice([0, 1, 5, 30, 300, 5000])))
        before = 0
        if rnd.random() < 0.08:
            # a long way into the file
            before = rnd.choice([8191, 65535, 65536, 70000, 140000, 1100000])
        if rnd.random() < 0.3:
            t = "".join(chr(rnd.choice([rnd.randrange(32, 127), rnd.randrange(0xa0, 0xd7ff), rnd.randrange(0x10000, 0x10ffff)])) for _ in range(rnd.randint(1, 100)))
        f = d / rnd.choice(["f", "g h", "\u00e9.txt"])
        data = t.encode("utf-8")
        utf8 = rnd.random() < 0.9
        if not utf8:
            at = len(t[:rnd.choice([0, len(t), rnd.randint(0, len(t))])].encode("utf-8"))
            data = data[:at] + rnd.choice(BAD_BYTES) + data[at:]
        k = len(t)
        z = rnd.random()
        if before and not (utf8 and z < 0.75 and k):
            before = 0
        unit, odd = rnd.choice(["a", "\u00e9", "\u4e2d", "\U0001f600", "\n", "b\n"]), rnd.choice(["", "", "x", "xy", "xyz"]) if before else ""
        before += len(odd)
        f.write_bytes((odd + unit * before)[:before].encode("utf-8") + data)
        if z < 0.75 and k:
            s = rnd.randint(0, k - 1)
            e = rnd.randint(s + 1, k)
            if rnd.random() < 0.2:
                s, e = rnd.choice([(0, k), (k - 1, k), (0, 1)])
        else:
            s, e = rnd.choice([(0, k + 1), (k, k + 1), (-1, 1), (1, 0), (0, 0), (k, k), (-2, -1), (k + 3, k + 5), (0, -1)])
        w.doing((t[:200], s, e))
        res, out = print_at(w, f, s + before, e + before, child=rnd.random() < w.input["child"])
        said = out != t[s:e] + "\n"
        # of a long text, what is well before the offsets does not matter: the specification judges the rest
        w.record(dict(t=list(t), s=s, e=e, utf8=utf8, res=res, printed=out != "", out=list(out[:-1]) if out.endswith("\n") else ["?"], said=said))
