"""Drivers for parameters: conversions, unification, access."""
import io
import math
import os
from collections.abc import Mapping
from datetime import date, datetime
from pathlib import Path

from paramlib import *

from vistautils.io_utils import CharSink


def res_of(w, r, conv):
    """(res, out) for a record"""
    if r[0] == "ok":
        try:
            return "ok", conv(r[1])
        except Exception as e:  # an answer of another kind altogether
            return "answer %r" % (r[1],)[:1], []
    return (r[0] if r[0] == "hang" else r[1]), []


# ---------------------------------------------------------------- unification
VALUES = [0, "", False, 0.0, [], "x", 7, 2.5, True, [1], "y", 8, -1.5, ["z"], "w", [[]]]


def tree_from_shape(rnd, es, used):
    out = {}
    for e in sorted(es, key=lambda e: len(e["p"])):
        d = out
        for k in e["p"][:-1]:
            d = d[k]
        if e["t"] == "ns":
            d[e["p"][-1]] = {}
        elif e["t"] == "null":
            d[e["p"][-1]] = None
        else:
            d[e["p"][-1]] = used.pop()
    return out


def shuffled(rnd, nested):
    ks = list(nested)
    rnd.shuffle(ks)
    return {k: shuffled(rnd, nested[k]) if isinstance(nested[k], dict) else nested[k] for k in ks}


def one_unify(w, trees):
    rnd = w.rnd
    trees = [shuffled(rnd, t) for t in trees]
    ps = [to_params(rnd, trees[0])]
    for t in trees[1:]:
        ps.append(to_params(rnd, t) if rnd.random() < 0.6 else as_mapping(rnd, t))
    before = [entries(t) for t in trees]
    kw = {} if rnd.random() < 0.6 else dict(namespace_prefix=rnd.choice([["p"], ["p", "q"], ("a",)]))
    if len(ps) == 2:
        r = w.call(lambda: ps[0].unify(ps[1], **kw))
    elif rnd.random() < 0.5:
        r = w.call(lambda: ps[0].unify(ps[1], **kw).unify(ps[2], **kw))
    else:  # grouped the other way, which gives the same
        r = w.call(lambda: ps[0].unify(Parameters.unify(ps[1] if isinstance(ps[1], Parameters) else Parameters.from_mapping(ps[1]), ps[2])))
    res, out = res_of(w, r, entries_of)
    after = [entries_of(p) if isinstance(p, Parameters) else entries(p) for p in ps]
    rec = dict(op="unify" if len(ps) == 2 else "unify3", a=before[0], b=before[1], a2=after[0], b2=after[1], res=res, out=out)
    if len(ps) == 3:
        rec["c"] = before[2]
    if res == "ok" and len(ps) == 2 and not kw and rnd.random() < 0.4:
        # namespaces know where they are, merged or not
        u = w.call(lambda: Parameters.from_mapping(as_mapping(rnd, trees[0], False)).unify(
            (Parameters.from_mapping if rnd.random() < 0.5 else dict)(as_mapping(rnd, trees[1], False))))
        nss = [e["p"] for e in out if e["t"] == "ns"]
        p = rnd.choice(nss) if nss else []
        if u[0] == "ok":
            r = w.call(lambda: list((u[1].namespace(".".join(p)) if p else u[1]).namespaced_items()))
            fres, fout = res_of(w, r, lambda items: [leaf_entry(k.split("."), v) for k, v in items])
            w.record(dict(op="merged flat", a=before[0], b=before[1], p=p, res=fres, out=fout))
    # the result stands on its own: changing nested lists or dicts of the view does not reach the inputs
    w.record(rec)
    return rec


def unify_record(w):
    rnd = w.rnd
    for c in w.input["cases"]:
        used = VALUES[:]
        rnd.shuffle(used)
        w.doing(c)
        rec = one_unify(w, [tree_from_shape(rnd, c["f"], used), tree_from_shape(rnd, c["g"], used)])
        if (rec["res"] == "ok") != c["ok"]:
            w.mismatch("unifying %s with %s: specification says %s, code gives %s" % (rec["a"], rec["b"], "success" if c["ok"] else "failure", rec["res"]), case=rec)
    for n in range(w.input["random"]):
        names = rnd.choice([["a", "b"], ["a", "b", "c", "d"], NAMES])
        ts = [rand_tree(rnd, names, rnd.randint(0, 4), rnd.randint(1, 4), null=rnd.random() < 0.3) for _ in range(rnd.choice([2, 2, 3]))]
        if rnd.random() < 0.3:
            # agree on structure, so that it goes deep
            ts[1] = revalued(rnd, ts[0])
        ts = grown(rnd, ts, 0.03)
        w.doing(ts)
        one_unify(w, ts)


def revalued(rnd, t):
    out = {}
    for k, v in t.items():
        if isinstance(v, dict):
            out[k] = revalued(rnd, v)
        elif rnd.random() < 0.8:
            out[k] = rand_leaf(rnd)
    if rnd.random() < 0.3:
        out[rnd.choice(NAMES)] = rand_leaf(rnd)
    return out


# ---------------------------------------------------------------- representations
def pathed(rnd, v):
    """Some strings as paths -> (value to write, value to expect)"""
    if isinstance(v, dict):
        out = {k: pathed(rnd, x) for k, x in v.items()}
        return {k: x[0] for k, x in out.items()}, {k: x[1] for k, x in out.items()}
    if isinstance(v, list):
        out = [pathed(rnd, x) for x in v]
        return [x[0] for x in out], [x[1] for x in out]
    if isinstance(v, str) and rnd.random() < 0.1:
        p = Path(rnd.choice(["/tmp/x", "rel/y", "a b", "/", ".", "123", "yes"]))
        return p, str(p)
    if isinstance(v, str) and rnd.random() < 0.08:
        d = rnd.choice([date(2001, 2, 3), datetime(1999, 12, 31, 23, 59, 58), datetime(2020, 1, 2, 3, 4, 5, 600)])
        return d, d
    return v, v


def write_and_load(w, params, n):
    rnd = w.rnd
    loader = YAMLParametersLoader(interpolate_environmental_variables=rnd.random() < 0.5)
    z = rnd.randint(0, 4)
    path = os.path.join(w.scratch("yaml"), "f%d.params" % (n % 7))
    if z == 0:
        YAMLParametersWriter().write(params, path)
        return loader.load(path)
    if z == 1:
        YAMLParametersWriter().write(params, Path(path))
        return loader.load(Path(path))
    if z == 2:
        s = CharSink.to_string()
        YAMLParametersWriter().write(params, s)
        return loader.load_string(s.last_string_written)
    if z == 3:
        return loader.load_string(str(params))
    YAMLParametersWriter().write(params, CharSink.to_file(path))
    return loader.load(Path(path))


def references(s):
    import re
    return re.search(r"%[\w.\-]+%", s)


def convert_record(w):
    rnd = w.rnd
    for n in range(w.input["random"]):
        names = rnd.choice([["a", "b"], ["a", "b", "c", "d"], NAMES, NAMES])
        z = rnd.random()
        t = rand_tree(rnd, names, rnd.randint(0, 4), rnd.randint(1, 5), null=z < 0.5 and rnd.random() < 0.3)
        t = grown(rnd, [t])[0]
        w.doing(t)
        if z < 0.12:
            m = as_mapping(rnd, t)
            r = w.call(lambda: Parameters.from_mapping(m))
            res, out = res_of(w, r, entries_of)
            w.record(dict(op="nest", a=entries(t), res=res, out=out))
            if entries(m) != entries(t):
                w.mismatch("from_mapping changed its argument %r" % (t,))
        elif z < 0.18 and t:
            k = rnd.choice([p[0] for p in pairs_of(t)] or [("q",)])
            bad = ".".join(k) if len(k) > 1 else k[0] + rnd.choice([".", ".x", ".x.y"])
            t2 = dict(t)
            if rnd.random() < 0.3:
                t2 = {"outer": t2}
                t2["outer"][bad] = 1
            else:
                t2[bad] = 1
            res, out = res_of(w, w.call(lambda: Parameters.from_mapping(t2)), entries_of)
            w.record(dict(op="dotted", a=entries(t), res=res, out=out))
        elif z < 0.33:
            p = to_params(rnd, t)
            prefix = ()
            if rnd.random() < 0.3:
                nss = [e["p"] for e in entries(t) if e["t"] == "ns"]
                if nss:
                    prefix = rnd.choice(nss)
                    p = Parameters.from_mapping(as_mapping(rnd, t, False)).namespace(".".join(prefix))
            r = w.call(lambda: list(p.namespaced_items()))
            res, out = res_of(w, r, lambda items: [leaf_entry(k.split("."), v) for k, v in items])
            w.record(dict(op="flat", a=entries(t), p=list(prefix), res=res, out=out))
            if r[0] == "ok" and any(isinstance(v, (Mapping, Parameters)) for _, v in r[1]):
                w.mismatch("the flat view of %r lists a namespace: %r" % (t, r[1]))
        elif z < 0.4:
            nss = [k for k, v in t.items() if isinstance(v, dict)]
            if nss:
                k = rnd.choice(nss)
                p = to_params(rnd, t)
                res, out = res_of(w, w.call(lambda: p.namespace(k)), entries_of)
                w.record(dict(op="below", a=entries(t), p=[k], res=res, out=out))
        elif z < 0.65:
            # pairs, in some order, with sometimes conflicting or repeated ones
            ps = pairs_of(t)
            if rnd.random() < 0.4 and ps:
                base = rnd.choice(ps)[0]
                zz = rnd.random()
                if zz < 0.3:
                    ps.append((base + (rnd.choice(names),), rand_leaf(rnd)))
                elif zz < 0.6 and len(base) > 1:
                    ps.append((base[:rnd.randint(1, len(base) - 1)], rand_leaf(rnd)))
                elif zz < 0.8:
                    ps.append((base, rand_leaf(rnd)))
                else:
                    ps.append((("",), rand_leaf(rnd)))
            ps = [(p, v) for p, v in ps if not any("." in k for k in p)]
            dotted = rnd.random() < 0.1
            if dotted:
                # with another separator, a name may look like several: it is refused
                base = rnd.choice(ps)[0] if ps else ("a",)
                at = rnd.randrange(len(base) + 1)
                ps.append((base[:at] + (rnd.choice(["a.b", "q.r", ".", ".x", "x.", "1.5"]),) + base[at:][:rnd.randint(0, 1)], rand_leaf(rnd)))
            rnd.shuffle(ps)
            sep = rnd.choice([".", ".", ".", "/", "::", "|", "+", "*", "^", "$", "(", "[", "\\", "..", "%", " ", "-", "a", "?", "\n", "\u00e9", ".*", "\\w"])
            if dotted and "." in sep:
                sep = "/"
            if any(sep.join(p).split(sep) != list(p) for p, _ in ps):
                if dotted:
                    continue
                sep = "."
            kv = [(sep.join(p), v) for p, v in ps]
            z2 = rnd.randint(0, 3)
            arg = {0: tuple(kv), 1: iter(kv)}.get(z2, kv)
            r = w.call(lambda: Parameters.from_key_value_pairs(arg, sep) if sep != "." or rnd.random() < 0.2 else Parameters.from_key_value_pairs(arg))
            res, out = res_of(w, r, entries_of)
            w.record(dict(op="pairs", q=[leaf_entry(p, v) for p, v in ps], res=res, out=out))
        elif z < 0.75:
            p = to_params(rnd, t)

            def back():
                items = list(p.namespaced_items())
                rnd.shuffle(items)
                return Parameters.from_key_value_pairs(items)
            if not any(k == "" for q, _ in pairs_of(t) for k in q):
                res, out = res_of(w, w.call(back), entries_of)
                w.record(dict(op="there and back", a=entries(t), res=res, out=out))
        else:
            t, want = pathed(rnd, grown(rnd, [rand_tree(rnd, names, rnd.randint(0, 4), rnd.randint(1, 5), null=rnd.random() < 0.3)])[0])
            p = Parameters.from_mapping(t if rnd.random() < 0.5 else as_mapping(rnd, t))
            res, out = res_of(w, w.call(lambda: write_and_load(w, p, n)), entries_of)
            w.record(dict(op="yaml", a=entries(want), res=res, out=out))
            if entries_of(p) != entries(t):
                w.mismatch("writing changed the parameters %r" % (t,))


# ---------------------------------------------------------------- access
from enum import Enum, IntEnum
from typing import List

from vistautils.range import Range

ENUMS = {
    "plain": Enum("plain", dict(a=1, b=2, alias=1)),
    "int": IntEnum("int", dict(a=0, b=2, alias=0)),
    "str": Enum("str", dict(a="", b="b", alias=""), type=str),
}
TYPES = dict(str=str, int=int, float=float, bool=bool, list=List, ns=Parameters, object=object)


def unleaf(e):
    """A Python value for a recorded leaf (of a sample in the table)"""
    import json
    t, v = e["t"], e["v"]
    if t == "int":
        return int(v)
    if t == "float":
        return float(v)
    if t == "bool":
        return v == "true"
    if t == "list":
        return [unleaf(dict(t=x[0], v=x[1])) for x in json.loads(v)[1]]
    return None if t == "null" else v


def untree(es):
    out = {}
    for e in sorted(es, key=lambda e: len(e["p"])):
        d = out
        for k in e["p"][:-1]:
            d = d[k]
        d[e["p"][-1]] = {} if e["t"] == "ns" else unleaf(e)
    return out


def mk_range(c, typ, far=None):
    def end(n):
        if far:
            return far.out(n // 10, typ)
        return n // 10 if typ == "int" else n / 10
    lo, hi = end(c["lo"]), end(c["hi"])
    if c["lob"] == "unb" and c["hib"] == "unb":
        return Range.all()
    if c["lob"] == "unb":
        return Range.at_most(hi) if c["hib"] == "closed" else Range.less_than(hi)
    if c["hib"] == "unb":
        return Range.at_least(lo) if c["lob"] == "closed" else Range.greater_than(lo)
    return {("closed", "closed"): Range.closed, ("closed", "open"): Range.closed_open, ("open", "closed"): Range.open_closed,
            ("open", "open"): Range.open}[c["lob"], c["hib"]](lo, hi)


class Far:
    """Numbers far from zero, or too fine: k stands for the k-th number after some base, and order is all that matters.
    What a set of parameters with these gives is to be what it gives with the small numbers they stand for."""

    def __init__(self, rnd):
        self.base = rnd.choice([2 ** 53, 2 ** 63, 2 ** 64, -2 ** 53, -2 ** 63, 10 ** 30, 10 ** 400, -10 ** 400])
        self.fbase = rnd.choice([1.0, -1.0, 2.0 ** 53, 1e300, -1e300, 1e-300, 0.1, 5e-324 * 7, 1e16])

    def out(self, k, typ):
        if typ == "int":
            return self.base + int(k)
        x, n = self.fbase, int(round(k))
        for _ in range(abs(n)):
            x = math.nextafter(x, math.inf if n > 0 else -math.inf)
        return x

    def back(self, v):
        if type(v) is int:
            return v - self.base
        for k in range(-40, 41):
            if type(v) is float and self.out(k, "float") == v:
                return float(k)
        return "not among them: %r" % (v,)


def far_asks(w, nocons, nodef):
    """Numbers and ranges of numbers, all moved far away."""
    rnd = w.rnd
    for _ in range(w.input.get("far", 0)):
        f = Far(rnd)
        acc = rnd.choice(["integer", "floating_point", "optional_floating_point", "optional_float"])
        typ = "int" if acc == "integer" else "float"
        conv = int if typ == "int" else float
        k = conv(rnd.randint(-3, 3))
        lo = rnd.randint(-4, 3)
        hi = lo + rnd.randint(1, 3)
        q = dict(acc=acc, p=["a"], typ="", d=nodef, ps=[],
                 cons=dict(nocons, k="range", lo=10 * lo, hi=10 * hi, lob=rnd.choice(["unb", "open", "closed"]), hib=rnd.choice(["unb", "open", "closed"])))
        tree = {"a": k} if rnd.random() < 0.8 else {"b": k}
        kw = {}
        if acc in ("integer", "floating_point", "optional_floating_point") and rnd.random() < 0.4:
            dk = conv(rnd.randint(-3, 3))
            lt, lv, ln = leaf(dk)
            q["d"], kw["default"] = dict(t=lt, v=lv, n=ln), f.out(dk, typ)
        kw["valid_range"] = mk_range(q["cons"], typ, f)
        params = Parameters.from_mapping({n: f.out(v, typ) for n, v in tree.items()})
        w.doing(dict(far=[str(f.base)[:30], f.fbase], q=q, tree=tree))
        r = w.call(lambda: getattr(params, acc)("a", **kw))
        res, out = ("ok", r[1]) if r[0] == "ok" else ((r[0] if r[0] == "hang" else r[1]), None)
        after = [dict(e) for e in entries({n: f.back(v) for n, v in params.as_nested_dicts().items()})]
        w.record(dict(tree=entries(tree), req=q, res=res, out=answer(None if out is None else f.back(out)) if res == "ok" else NOANSWER,
                      after=after, trees=[]))


def ask(rnd, params, q, default, enum):
    acc, name, c = q["acc"], ".".join(q["p"]), q["cons"]
    kw = {}
    if acc == "in":
        return name in params
    if acc == "has_namespace":
        return params.has_namespace(name)
    if acc == "as_nested_dicts":
        return params.as_nested_dicts()
    if acc == "exactly_one":
        names = [".".join(p) for p in q["ps"]]
        return params.assert_exactly_one_present(names if rnd.random() < 0.7 else tuple(names))
    if q["d"]["t"] != "none":
        kw["default"] = default
    if acc in ("string", "optional_string") and c["k"] == "options":
        kw["valid_options"] = rnd.choice([list, tuple, set])(c["s"])
    if acc == "integer" and c["k"] == "range":
        kw["valid_range"] = mk_range(c, "int")
    if acc in ("floating_point", "optional_floating_point", "optional_float") and c["k"] == "range":
        kw["valid_range"] = mk_range(c, "float")
    if acc in ("get", "get_optional"):
        return getattr(params, acc)(name, TYPES[q["typ"]], **kw)
    if acc == "enum":
        return params.enum(name, ENUMS[enum], **kw)
    if acc == "optional_boolean_with_default":
        return params.optional_boolean_with_default(name, default)
    return getattr(params, acc)(name, **kw)


NONODE = dict(t="ns", v="", n=0)


def answer(v):
    if v is None:
        return dict(k="nothing", node=NONODE, tree=[])
    if isinstance(v, Parameters):
        return dict(k="tree", node=NONODE, tree=entries_of(v))
    if isinstance(v, Mapping):
        return dict(k="tree", node=NONODE, tree=entries(v))
    if isinstance(v, Enum):
        return dict(k="val", node=dict(t="enum", v=v.name, n=0), tree=[])
    t, x, n = leaf(v)
    return dict(k="val", node=dict(t=t, v=x, n=n), tree=[])


NOANSWER = dict(k="nothing", node=NONODE, tree=[])


def one_ask(w, params, tree, q, default, enum="plain"):
    r = w.call(lambda: ask(w.rnd, params, q, default, enum))
    res, out = ("ok", r[1]) if r[0] == "ok" else ((r[0] if r[0] == "hang" else r[1]), None)
    w.record(dict(tree=entries(tree), req=q, res=res, out=answer(out) if res == "ok" else NOANSWER, after=entries_of(params), trees=[]))
    return res


def access_record(w):
    rnd = w.rnd
    for c in w.input["cases"]:
        tree = untree(c["tree"])
        q = c["req"]
        enum = rnd.choice(list(ENUMS))
        if q["d"]["t"] == "enum":
            default = ENUMS[enum][q["d"]["v"]]
        else:
            default = unleaf(q["d"])
        w.doing(c)
        params = Parameters.from_mapping(tree)
        if rnd.random() < 0.3:
            params = Parameters.from_mapping({"outer": {"in": tree}}).namespace("outer.in")
        elif rnd.random() < 0.3:
            params = to_params(rnd, tree)
        res = one_ask(w, params, tree, q, default, enum)
        want = c["want"]
        if want != "any" and (want == "err") != (res != "ok"):
            w.mismatch("%s of %s: specification says %s, code gives %s" % (q, c["tree"], want, res), case=c)
    nodef = dict(t="none", v="", n=0)
    nocons = dict(k="none", s=[], c=[], lo=0, hi=0, lob="unb", hib="unb")
    required = ["string", "integer", "positive_integer", "floating_point", "boolean", "arbitrary_list", "get", "namespace"]
    optional = ["optional_string", "optional_integer", "optional_positive_integer", "optional_floating_point", "optional_float", "optional_boolean",
                "optional_boolean_with_default", "optional_arbitrary_list", "get_optional"]
    others = ["enum", "in", "has_namespace", "optional_namespace", "namespace_or_empty", "exactly_one", "as_nested_dicts"]
    want_type = {"string": "str", "integer": "int", "positive_integer": "int", "floating_point": "float", "boolean": "bool", "arbitrary_list": "list",
                 "float": "float", "boolean_with_default": "bool", "namespace": "ns"}
    far_asks(w, nocons, nodef)
    for n in (10, 40, 100):     # many namespaces
        tree = {"ns%d" % i: rnd.choice([{}, {"a": i}, {"b": {"c": "x"}}, {"a": i}, 3]) for i in range(n)}
        params = Parameters.from_mapping(as_mapping(rnd, tree, False))
        r = w.call(params.sub_namespaces)
        ok = r[0] == "ok"
        w.record(dict(tree=entries(tree), req=dict(acc="sub_namespaces", p=[], typ="", cons=nocons, d=nodef, ps=[]), res="ok" if ok else str(r[1]),
                      out=NOANSWER, after=entries_of(params), trees=[entries_of(x) for x in r[1]] if ok else []))
    for n in range(w.input["random"]):
        names = rnd.choice([["a", "b"], ["a", "b", "c", "d"], NAMES])
        tree = grown(rnd, [rand_tree(rnd, names, rnd.randint(0, 4), rnd.randint(1, 4), null=rnd.random() < 0.3)], 0.01)[0]
        params = Parameters.from_mapping(tree if rnd.random() < 0.5 else as_mapping(rnd, tree, False))
        for _ in range(rnd.randint(2, 6)):
            w.doing(tree)
            if rnd.random() < 0.06:
                r = w.call(params.sub_namespaces)
                q = dict(acc="sub_namespaces", p=[], typ="", cons=nocons, d=nodef, ps=[])
                ok = r[0] == "ok"
                w.record(dict(tree=entries(tree), req=q, res="ok" if ok else str(r[1]), out=NOANSWER, after=entries_of(params),
                              trees=[entries_of(x) for x in r[1]] if ok else []))
                continue

            def path():
                ps = [e["p"] for e in entries(tree)]
                z = rnd.random()
                if ps and z < 0.7:
                    return list(rnd.choice(ps))
                if ps and z < 0.85:
                    p = list(rnd.choice(ps))
                    return p + [rnd.choice(names)] if rnd.random() < 0.6 else p[:-1] + [rnd.choice(names)]
                return [rnd.choice(names + ["", "zz"]) for _ in range(rnd.randint(1, 3))]
            acc = rnd.choice(required + optional + others)
            q = dict(acc=acc, p=path(), typ=rnd.choice(list(TYPES)) if acc in ("get", "get_optional") else "", cons=nocons, d=nodef, ps=[])
            if q["p"] and rnd.random() < 0.5 and acc in required + optional + ["enum"]:
                # make it likelier to be there and of the type
                t = want_type.get(acc.replace("optional_", ""), q["typ"])
                fit = [e["p"] for e in entries(tree) if e["t"] == t]
                if fit:
                    q["p"] = list(rnd.choice(fit))
            if acc == "enum" and rnd.random() < 0.6:
                q["p"] = [rnd.choice(names)]
                tree = dict(tree, **{q["p"][0]: rnd.choice(["a", "b", "alias", "A", "c", "", "1"])})
                params = Parameters.from_mapping(tree)
            here = [e for e in entries(tree) if e["p"] == q["p"]]
            default, enum = None, rnd.choice(list(ENUMS))
            if acc == "exactly_one":
                q["ps"] = []
                for _ in range(rnd.randint(0, 4)):
                    p = path()
                    if p not in q["ps"]:
                        q["ps"].append(p)
                if rnd.random() < 0.08:     # many names of which none is there
                    q["ps"][rnd.randint(0, len(q["ps"])):0] = [["absent%d" % i] for i in range(rnd.choice([11, 40, 100]))]
            if acc == "enum":
                q["cons"] = dict(nocons, k="enum", s=["a", "b", "alias"], c=["a", "b", "a"])
                if rnd.random() < 0.5:
                    m = rnd.choice(["a", "b"])
                    q["d"], default = dict(t="enum", v=m, n=0), ENUMS[enum][m]
            elif acc in required + optional and acc not in ("namespace", "optional_float"):
                t = want_type.get(acc.replace("optional_", ""), q["typ"])
                if acc == "optional_boolean_with_default" or rnd.random() < 0.5:
                    cands = [x for x in [0, 1, -3, 12, "", "x", "yes", 0.0, 2.5, -1.5, True, False, [], [1], ["a", {}]]]
                    if acc in optional or rnd.random() < 0.8:
                        cands = [x for x in cands if t in ("object",) or leaf(x)[0] == t] or [None]
                    default = rnd.choice(cands)
                    if default is not None:
                        lt, lv, ln = leaf(default)
                        q["d"] = dict(t=lt, v=lv, n=ln)
            if acc in ("string", "optional_string") and rnd.random() < 0.5:
                q["cons"] = dict(nocons, k="options", s=list({rnd.choice(STRINGS + [e["v"] for e in here if e["t"] == "str"] * 20) for _ in range(rnd.randint(0, 3))}))
            if acc in ("integer", "floating_point", "optional_floating_point", "optional_float") and rnd.random() < 0.6:
                n10 = here[0]["n"] if here else 0
                step = 10 if acc == "integer" else 5
                lo = n10 + step * rnd.randint(-2, 1)
                if acc == "integer":
                    lo = lo // 10 * 10
                hi = lo + step * rnd.randint(1, 3)
                q["cons"] = dict(nocons, k="range", lo=lo, hi=hi, lob=rnd.choice(["unb", "open", "closed"]), hib=rnd.choice(["unb", "open", "closed"]))
                if any(e["t"] in ("int", "float") and (e["n"] == 0 or not -10 ** 6 < e["n"] < 10 ** 6) and e["v"] not in ("0", "0.0", "-0.0") for e in here):
                    q["cons"] = nocons  # too big or too fine for the recorded numbers
            if acc in ("positive_integer", "optional_positive_integer") and any(e["t"] == "int" and e["n"] == 0 and e["v"] != "0" for e in here):
                continue
            one_ask(w, params, tree, q, default, enum)
