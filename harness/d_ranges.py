"""Drivers for ranges, range sets and range maps (run by worker.py on the real code)."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys

from rangelib import KINDS, Universe, accepts
from vistautils.range import (BoundType, ImmutableRangeMap, ImmutableRangeSet, MutableRangeSet, Range, RangeMap,
                              RangeSet, immutablerangemap)

FORM2 = {"open": Range.open, "closed": Range.closed, "closed_open": Range.closed_open, "open_closed": Range.open_closed}
FORMU = {"less_than": Range.less_than, "at_most": Range.at_most}
FORML = {"greater_than": Range.greater_than, "at_least": Range.at_least}


def run_call(w, u, c):
    """One range-algebra call [op, args] -> encoded result"""
    op = c["op"]
    if op == "make":
        f = c["f"]
        if f in FORM2:
            out = w.call(FORM2[f], u.v(c["v"]), u.v(c["w"]))
        elif f in FORMU:
            out = w.call(FORMU[f], u.v(c["w"]))
        elif f in FORML:
            out = w.call(FORML[f], u.v(c["v"]))
        else:
            out = w.call(Range.all)
        return u.enc(out, "range")
    if op == "contains":
        r = u.r(c["a"])
        return u.enc(w.call(lambda: u.v(c["v"]) in r), "bool")
    if op == "spanning":
        return u.enc(w.call(Range.create_spanning, [u.r(p) for p in c["rs"]]), "range")
    a = u.r(c["a"])
    if op == "is_empty":
        return u.enc(w.call(a.is_empty), "bool")
    if op == "has_lower":
        return u.enc(w.call(a.has_lower_bound), "bool")
    if op == "has_upper":
        return u.enc(w.call(a.has_upper_bound), "bool")
    if op == "lower_endpoint":
        return u.enc(w.call(lambda: a.lower_endpoint), "value")
    if op == "upper_endpoint":
        return u.enc(w.call(lambda: a.upper_endpoint), "value")
    if op == "lower_type":
        return u.enc(w.call(lambda: a.lower_bound_type), "bound")
    if op == "upper_type":
        return u.enc(w.call(lambda: a.upper_bound_type), "bound")
    b = u.r(c["b"])
    before = (u.cuts(a), u.cuts(b))
    if op == "encloses":
        res = u.enc(w.call(a.encloses, b), "bool")
    elif op == "is_connected":
        res = u.enc(w.call(a.is_connected, b), "bool")
    elif op == "intersects":
        res = u.enc(w.call(a.intersects, b), "bool")
    elif op == "intersection":
        res = u.enc(w.call(a.intersection, b), "range")
    elif op == "span":
        res = u.enc(w.call(a.span, b), "range")
    elif op == "eq":
        o1 = u.enc(w.call(lambda: a == b), "bool")
        o2 = u.enc(w.call(lambda: not (a != b)), "bool")
        res = o1 if o1 == o2 else [-79]
    elif op == "hash_agrees":
        res = u.enc(w.call(lambda: (hash(a) == hash(b)) if c["a"] == c["b"] else True), "bool")
    else:
        raise AssertionError(op)
    if (u.cuts(a), u.cuts(b)) != before:
        return [-80]
    return res


def algebra_replay(w):
    """Replay every exported call, on several endpoint types."""
    n = w.input["n"]
    calls = w.input["calls"]
    for kind in w.input["kinds"]:
        u = Universe(kind, n)
        w.doing("range algebra over %s" % kind)
        for x in calls:
            got = run_call(w, u, x["c"])
            if not accepts(x["e"], got):
                w.mismatch("range algebra: %s over %s endpoints: specification says %s, code gives %s" % (
                    x["c"], kind, x["e"], got), call=x["c"], kind=kind, expected=x["e"], got=got,
                    endpoints=[repr(t) for t in u.table])
                if w.full():
                    return
    # documented non-values
    for bad in (None,):
        out = w.call(lambda: bad in Range.closed(1, 2))
        if out[0] != "err":
            w.mismatch("membership of None in a range did not fail", got=repr(out[1]))
    if not (BoundType.open().flip() is BoundType.closed() and BoundType.closed().flip() is BoundType.open()):
        w.mismatch("flipping a bound type does not exchange open and closed")


def rand_range(rnd, n, empty=0.08):
    top = 2 * n + 1
    if rnd.random() < empty:
        c = rnd.randint(1, top - 1)
        return [c, c]
    while True:
        mode = rnd.random()
        if mode < 0.12:
            lo, hi = 0, rnd.randint(1, top)
        elif mode < 0.24:
            lo, hi = rnd.randint(0, top - 1), top
        elif mode < 0.7:
            lo = rnd.randint(1, top - 1)
            hi = min(top, lo + rnd.randint(1, 6))
        else:
            lo, hi = sorted((rnd.randint(0, top), rnd.randint(0, top)))
        if lo <= hi and lo != top and hi != 0 and lo != hi:
            return [lo, hi]


UN = ["is_empty", "has_lower", "has_upper", "lower_endpoint", "upper_endpoint", "lower_type", "upper_type"]
BIN = ["encloses", "is_connected", "intersects", "intersection", "span", "eq", "hash_agrees"]


def algebra_record(w):
    n = w.input["n"]
    rnd = w.rnd
    us = [Universe(k, n) for k in KINDS]
    for _ in range(w.input["count"]):
        u = rnd.choice(us)
        k = rnd.random()
        if k < 0.1:
            f = rnd.choice(list(FORM2) + list(FORMU) + list(FORML) + ["all"])
            v = rnd.randint(1, n)
            c = dict(op="make", f=f, v=v, w=min(n, max(1, v + rnd.randint(-2, 3))))
        elif k < 0.3:
            a = rand_range(rnd, n)
            v = rnd.choice([rnd.randint(1, n)] + [max(1, min(n, (x + d) // 2)) for x in a for d in (0, 1, 2)])
            c = dict(op="contains", a=a, v=v)
        elif k < 0.4:
            c = dict(op="spanning", rs=[rand_range(rnd, n) for _ in range(rnd.choice([0, 1, 2, 3, 5, 9] * 3 + [20]))])
            if rnd.random() < 0.05:     # many, of which the last say more
                c["rs"] = [rand_range(rnd, n)] * rnd.choice([15, 70, 130]) + c["rs"]
        elif k < 0.5:
            c = dict(op=rnd.choice(UN), a=rand_range(rnd, n))
        else:
            a = rand_range(rnd, n)
            b = rand_range(rnd, n)
            if rnd.random() < 0.3:   # share a bound
                j = rnd.randint(0, 1)
                b2 = [a[j], b[1]] if rnd.random() < 0.5 else [b[0], a[j]]
                if b2[0] <= b2[1] and b2[0] != 2 * n + 1 and b2[1] != 0:
                    b = b2
            c = dict(op=rnd.choice(BIN), a=a, b=b)
        w.doing("%s over %s" % (c, u.kind))
        c2 = dict(c)
        c2["res"] = run_call(w, u, c)
        c2["kind"] = u.kind
        w.record(c2)
    # every endpoint kind sees chained algebra on results, not only on fresh ranges
    w.stats["kinds"] = len(us)


# ------------------------------------------------------------------ range sets
def obs(u, rs):
    o = []
    for x in rs.as_ranges():
        o += u.cuts(x)
    return o


def sets_replay(w):
    """Every state x every addition, each state reached along several insertion orders."""
    n = w.input["n"]
    universe = w.input["universe"]
    rnd = w.rnd
    for kind in w.input["kinds"]:
        u = Universe(kind, n)
        for st in w.input["states"]:
            members = st["members"]
            for r, to in zip(universe, st["adds"]):
                order = [list(m) for m in members]
                how = rnd.randint(0, 3)
                if how == 1:
                    order.reverse()
                elif how == 2:
                    order = fragments(rnd, order)
                elif how == 3:
                    rnd.shuffle(order)
                w.doing("%s: add %s to %s built by %s" % (kind, r, members, order))

                def go():
                    s = RangeSet.create_mutable()
                    for m in order:
                        s.add(u.r(m))
                    before = s.immutable_copy()
                    ret = s.add(u.r(r))
                    return s, before, ret
                out = w.call(go)
                if out[0] != "ok":
                    w.mismatch("adding %s to %s (built by %s) raised %s" % (r, members, order, out[1]),
                               kind=kind, member=members, added=r, order=order)
                else:
                    s, before, ret = out[1]
                    got = obs(u, s)
                    if got != to or len(s) * 2 != len(to) or ret is not s:
                        w.mismatch("range set %s plus %s (built by %s): specification says %s, code gives %s" % (
                            members, r, order, to, got), kind=kind, order=order, added=r, expected=to, got=got,
                            endpoints=[repr(t) for t in u.table])
                    flat = [c for m in members for c in m]
                    gb = obs(u, before)
                    if gb != flat:
                        w.mismatch("an immutable copy changed (or was wrong) when its source was modified: %s -> %s"
                                   % (flat, gb), kind=kind, order=order, added=r)
                if w.full():
                    return


def fragments(rnd, members):
    """Pieces whose union is the union of the members, in random order, possibly overlapping."""
    out = []
    for lo, hi in members:
        cuts = sorted(rnd.sample(range(lo, hi + 1), rnd.randint(0, min(2, hi - lo + 1))))
        pts = [lo] + [c for c in cuts if lo < c < hi] + [hi]
        for a, b in zip(pts, pts[1:]):
            if rnd.random() < 0.3 and b < hi:
                b += 1
            out.append([a, b])
    # a piece [0, c] / [c, top] is fine; a lower cut TOP or upper cut 0 cannot arise
    rnd.shuffle(out)
    return out


def sets_record(w):
    """Random histories over several handles; one trace record per operation."""
    rnd = w.rnd
    for h in range(w.input["histories"]):
        n = w.input["n"]
        u = Universe(KINDS[h % len(KINDS)], n)
        builder = rnd.random() < 0.3
        obj = ImmutableRangeSet.builder() if builder else RangeSet.create_mutable()
        snaps = []
        others = []
        used = []        # ranges given before, which are given again
        w.record(dict(op="new", kind=u.kind, builder=builder))
        lo_n = rnd.choice([3, 6, n, n])
        length = rnd.choice([4, 8, 16, 40]) if n < 60 else n
        for _ in range(length):
            k = rnd.random()
            rec = dict(r=[0, 1], rs=[], failed="", self=1, seen=0, obs=[], len=0, empty=0)
            def rr():
                a = rand_range(rnd, lo_n)
                top = 2 * lo_n + 1
                return [x if x != top else 2 * n + 1 for x in a]
            if rnd.random() < 0.3:
                # other sets: added to this one, or changed afterwards
                j = rnd.randrange(len(others)) if others else 0
                what = rnd.choice(["other_new", "add_other", "add_snap", "other_add", "other_clear", "other_take"])
                if what == "add_snap" and snaps:
                    j = rnd.randrange(len(snaps))
                    out = w.call(obj.add_all, snaps[j].as_ranges() if builder else snaps[j])
                elif what == "add_other" and others:
                    out = w.call(obj.add_all, others[j].as_ranges() if builder else others[j])
                elif what == "other_add" and others:
                    rec["r"] = rr()
                    out = w.call(others[j].add, u.r(rec["r"]))
                    out = ("ok", obj) if out[0] == "ok" else out
                elif what == "other_clear" and others:
                    out = w.call(others[j].clear)
                    out = ("ok", obj) if out[0] == "ok" else out
                elif what == "other_take" and others and not builder:
                    out = w.call(others[j].add_all, obj)
                    out = ("ok", obj) if out[0] == "ok" else out
                else:
                    what = "other_new"
                    rec["rs"] = [rr() for _ in range(rnd.choice([0, 0, 1, 3]))]
                    out = w.call(lambda: RangeSet.create_mutable().add_all([u.r(x) for x in rec["rs"]]))
                    if out[0] == "ok":
                        others.append(out[1])
                        out = ("ok", obj)
                rec["op"] = what
                rec["i"] = j + 1
            elif k < 0.62 or (builder and k < 0.7):
                rec["op"] = "add"
                if used and rnd.random() < 0.25:
                    rec["r"], given = rnd.choice([used[-1], rnd.choice(used)])
                else:
                    rec["r"] = rr()
                    given = u.r(rec["r"])
                    used.append((rec["r"], given))
                out = w.call(obj.add, given)
            elif k < 0.65 and not builder:
                # all of its own ranges: nothing new
                rec["op"] = "add_all"
                how = rnd.randint(0, 3)
                o = w.call(obs, u, obj)
                flat = o[1] if o[0] == "ok" else []
                rec["rs"] = [flat[i:i + 2] for i in range(0, len(flat), 2)]
                out = w.call(lambda: obj.add_all([obj, obj.as_ranges(), list(obj.as_ranges()), (x for x in list(obj.as_ranges()))][how]))
            elif k < 0.8:
                rec["op"] = "add_all"
                rec["rs"] = [rr() for _ in range(rnd.randint(0, 4))]
                if rnd.random() < 0.02:
                    rec["rs"] = [rr()] * rnd.choice([15, 70, 130]) + rec["rs"]
                real = [u.r(x) for x in rec["rs"]]
                form = rnd.randint(0, 3)
                if form == 0:
                    arg = real
                elif form == 1:
                    arg = iter(real)
                elif form == 2:
                    arg = (x for x in real)
                else:
                    # through another range set: same union, so same specification step
                    arg = RangeSet.create_mutable()
                    for x in real:
                        arg.add(x)
                    if rnd.random() < 0.5:
                        arg = arg.immutable_copy()
                    if builder:
                        arg = arg.as_ranges()
                rec["form"] = form
                out = w.call(obj.add_all, arg)
            elif k < 0.86 and not builder:
                rec["op"] = "clear"
                out = w.call(obj.clear)
                if out[0] == "ok":
                    out = ("ok", obj)
            else:
                rec["op"] = "snap"
                out = w.call(obj.build if builder else obj.immutable_copy)
                if out[0] == "ok":
                    snaps.append(out[1])
                    out = ("ok", obj)
            w.doing("%s on %s" % (rec, u.kind))
            if out[0] != "ok":
                rec["failed"] = out[1]
            elif out[1] is not obj:
                rec["self"] = 0

            def see():
                if not builder:
                    rec["seen"] = 1
                    rec["obs"] = obs(u, obj)
                    rec["len"] = len(obj)
                    rec["empty"] = 1 if obj.is_empty() else 0
                rec["snaps"] = [obs(u, s) for s in snaps]
                rec["others"] = [obs(u, s) for s in others]
            o = w.call(see)
            if o[0] != "ok":
                rec["failed"] = rec["failed"] or "observation: " + o[1]
                rec.setdefault("snaps", [])
                rec.setdefault("others", [])
            w.record(rec)


def either(w, obj, name, old):
    """A method, or sometimes its deprecated name (while there is one)."""
    return getattr(obj, old if w.rnd.random() < 0.15 and hasattr(obj, old) else name)


def do_query(w, u, s, c):
    op = c["op"]
    if op == "contains":
        return u.enc(w.call(lambda: u.v(c["v"]) in s), "bool")
    if op == "range_containing":
        return u.enc(w.call(s.range_containing, u.v(c["v"])), "optrange")
    if op == "rightmost":
        return u.enc(w.call(either(w, s, "rightmost_containing_or_below", "maximal_containing_or_below"), u.v(c["v"])), "optrange")
    if op == "leftmost":
        return u.enc(w.call(either(w, s, "leftmost_containing_or_above", "minimal_containing_or_above"), u.v(c["v"])), "optrange")
    if op == "encloses":
        return u.enc(w.call(s.encloses, u.r(c["q"])), "bool")
    if op == "range_enclosing":
        return u.enc(w.call(s.range_enclosing_range, u.r(c["q"])), "optrange")
    if op == "intersects":
        return u.enc(w.call(s.intersects, u.r(c["q"])), "bool")
    if op == "overlapping":
        return u.enc(w.call(lambda: list(s.ranges_overlapping(u.r(c["q"])))), "ranges")
    if op == "enclosed_by":
        return u.enc(w.call(lambda: list(s.ranges_enclosed_by(u.r(c["q"])))), "ranges")
    if op == "len":
        return u.enc(w.call(len, s), "int")
    if op == "is_empty":
        return u.enc(w.call(s.is_empty), "bool")
    if op == "span":
        return u.enc(w.call(lambda: s.span), "range")
    if op == "as_ranges":
        return u.enc(w.call(lambda: list(s.as_ranges())), "rangeseq")
    if op == "encloses_all":
        rs = [u.r(p) for p in c["rs"]]
        form = c.get("form", 0)
        if form == 1:
            rs = iter(rs)
        return u.enc(w.call(s.encloses_all, rs), "bool")
    if op == "encloses_all_set":
        return u.enc(w.call(s.encloses_all, build_set(u, c["rs"], c["form"])), "bool")
    raise AssertionError(op)


def build_set(u, members, how):
    if how == 0:
        s = RangeSet.create_mutable()
        s.add_all([u.r(m) for m in members])
        return s
    b = ImmutableRangeSet.builder()
    for m in (members if how == 1 else reversed(members)):
        b.add(u.r(m))
    return b.build()


def queries_replay(w):
    n = w.input["n"]
    universe = w.input["universe"]
    ki = 0
    kinds = w.input["kinds"]
    for rep in range(w.input["reps"]):
        for st in w.input["states"]:
            u = Universe(kinds[ki % len(kinds)], n)
            ki += 1
            w.doing("queries on %s over %s" % (st["members"], u.kind))
            out = w.call(build_set, u, st["members"], (ki + rep) % 3)
            if out[0] != "ok":
                w.mismatch("building range set %s over %s raised %s" % (st["members"], u.kind, out[1]))
                continue
            s = out[1]

            def check(c, e):
                got = do_query(w, u, s, c)
                if not accepts(e, got):
                    w.mismatch("range set %s, query %s over %s endpoints: specification says %s, code gives %s" % (
                        st["members"], c, u.kind, e, got), members=st["members"], query=c, kind=u.kind,
                        expected=e, got=got, endpoints=[repr(t) for t in u.table])
            for op, es in st["vq"].items():
                for i, e in enumerate(es, 1):
                    check(dict(op=op, v=i), e)
            for op, es in st["rq"].items():
                for q, e in zip(universe, es):
                    check(dict(op=op, q=q), e)
            for op, e in st["wq"].items():
                check(dict(op=op), e)
            if obs(u, s) != [c for m in st["members"] for c in m]:
                w.mismatch("queries changed the range set %s" % (st["members"],))
            if w.full():
                return


VQ = ["contains", "range_containing", "rightmost", "leftmost"]
RQ = ["encloses", "range_enclosing", "intersects", "overlapping", "enclosed_by"]
WQ = ["len", "is_empty", "span", "as_ranges"]


def queries_record(w):
    rnd = w.rnd
    n = w.input["n"]
    for h in range(w.input["sets"]):
        u = Universe(KINDS[h % len(KINDS)], n)
        mode = rnd.random()
        if mode < 0.06:
            adds = []
        elif mode < 0.5:    # many small disjoint members
            adds = []
            c = rnd.randint(1, 3)
            while c < 2 * n - 1:
                e = min(2 * n, c + rnd.randint(1, 3))
                adds.append([c, e])
                c = e + rnd.randint(1, 4)
            if rnd.random() < 0.3:
                adds[0][0] = 0
            if rnd.random() < 0.3:
                adds[-1][1] = 2 * n + 1
        else:
            adds = [rand_range(rnd, n) for _ in range(rnd.choice([1, 2, 4, 8]))]
            if rnd.random() < 0.7:
                adds = [a for a in adds if a[1] - a[0] < n] or adds[:1]
        rnd.shuffle(adds)
        how = rnd.choice([0, 0, 1, 2])
        out = w.call(build_set, u, adds, how)
        if out[0] != "ok":
            w.mismatch("building a range set from %s over %s raised %s" % (adds, u.kind, out[1]))
            continue
        s = out[1]
        near = [x for a in adds for x in a]
        asked = []
        for _ in range(w.input["per"]):
            k = rnd.random()
            # a mutable set goes on being changed between the queries
            if how == 0 and k < 0.15:
                if k < 0.02:
                    out = w.call(s.clear)
                    adds = []
                else:
                    c = rnd.choice(near) if near and rnd.random() < 0.7 else rnd.randint(0, 2 * n)
                    r = sorted([max(0, min(2 * n + 1, c)), max(0, min(2 * n + 1, c + rnd.randint(-3, 3)))])
                    if r[0] == 2 * n + 1 or r[1] == 0:
                        r = [0, 1]
                    out = w.call(s.add, u.r(r))
                    adds = adds + [r]
                    near += r
                if out[0] != "ok":
                    w.mismatch("changing a range set made by %s over %s raised %s" % (adds, u.kind, out[1]))
                    break
                k = rnd.random()
            def cut():
                if rnd.random() < 0.12:
                    return rnd.choice([0, 2 * n + 1])
                if near and rnd.random() < 0.6:
                    return max(0, min(2 * n + 1, rnd.choice(near) + rnd.randint(-2, 2)))
                return rnd.randint(0, 2 * n + 1)
            def rng():
                for _ in range(50):
                    a, b = cut(), cut()
                    if a > b:
                        a, b = b, a
                    if a != 2 * n + 1 and b != 0 and a <= b:
                        return [a, b]
                return [0, 2 * n + 1]
            if k < 0.35:
                c = dict(op=rnd.choice(VQ), v=max(1, min(n, (cut() + 1) // 2)))
            elif k < 0.85:
                c = dict(op=rnd.choice(RQ), q=rng())
            elif k < 0.9:
                c = dict(op=rnd.choice(WQ))
            else:
                rs = [rng() for _ in range(rnd.randint(0, 3))]
                if rnd.random() < 0.5:
                    # pieces of members: enclosed unless one is made to stick out
                    rs = fragments(rnd, [a for a in rnd.sample(adds, min(len(adds), 3)) if a[0] < a[1]])
                    rs = [x for x in rs if rnd.random() < 0.7]
                if rs and rnd.random() < 0.05:
                    rs = rs[:1] * rnd.choice([15, 70, 130]) + rs
                c = dict(op=rnd.choice(["encloses_all", "encloses_all_set"]), rs=rs, form=rnd.choice([0, 1]))
            if asked and rnd.random() < 0.25:
                # asked before, perhaps when the set was another one
                c = rnd.choice(asked[-6:])
            asked.append(c)
            w.doing("%s on %s over %s" % (c, adds, u.kind))
            rec = dict(c)
            rec["adds"] = adds
            rec["kind"] = u.kind
            rec["res"] = do_query(w, u, s, c)
            w.record(rec)


# ------------------------------------------------------------------ range maps
VALS = [[None, 11, 22, 33, 44, 55], [None, 0, "", (), "d", 1.5], [None, "a", "b", "c", "d", "e"],
        [None, (1, 2), "x", frozenset([1]), 0.0, "0.0"], [None, 11, None, "", "b", "c"],
        [None, [1], {"a": 1}, [], bytearray(b"b"), {1}]]


class MapU:
    """Values of a range map: model values 1.. as real ones (falsy ones included)."""

    def __init__(self, vals, u):
        self.vals, self.u = vals, u

    def val(self, i):
        return self.vals[i]

    def vi(self, x):
        for i, t in enumerate(self.vals):
            if i and type(t) is type(x) and (t is None or t == x):
                return i
        return -77

    def build(self, ps, how):
        pairs = [(self.u.r(p["k"]), self.val(p["x"])) for p in ps]
        if how == 0:
            return immutablerangemap(pairs)
        if how == 1:
            return immutablerangemap(iter(pairs))
        if how == 2:
            b = ImmutableRangeMap.builder()
            for k, v in pairs:
                ret = b.put(k, v)
                assert ret is b
            return b.build()
        if not pairs and how == 3:
            return immutablerangemap()
        if not pairs and how == 4:
            return ImmutableRangeMap.empty()
        return immutablerangemap((k, v) for k, v in pairs)

    @property
    def hashable(self):
        return not any(isinstance(x, list) for x in self.vals)

    @property
    def nul(self):
        return self.vals.index(None, 1) if None in self.vals[1:] else 0

    def query(self, w, m, c):
        u = self.u
        op = c["op"]

        def opt(out):
            if out[0] != "ok":
                return u.enc(out, "bool")
            return [] if out[1] is None else [self.vi(out[1])]
        if op == "map_get":
            return opt(w.call(lambda: m[u.v(c["v"])]))
        if op == "map_contains":
            return u.enc(w.call(lambda: u.v(c["v"]) in m), "bool")
        if op == "map_rightmost":
            return opt(w.call(either(w, m, "get_from_rightmost_containing_or_below", "get_from_maximal_containing_or_below"), u.v(c["v"])))
        if op == "map_leftmost":
            return opt(w.call(either(w, m, "get_from_leftmost_containing_or_above", "get_from_minimal_containing_or_above"), u.v(c["v"])))
        if op == "map_enclosed":
            out = w.call(lambda: list(m.get_enclosed_by(u.r(c["q"]))))
            return sorted(self.vi(x) for x in out[1]) if out[0] == "ok" else u.enc(out, "bool")
        if op == "map_dict":
            out = w.call(lambda: list(m.as_dict().items()))
            if out[0] != "ok":
                return u.enc(out, "bool")
            return [z for t in sorted(tuple(u.cuts(k)) + (self.vi(v),) for k, v in out[1]) for z in t]
        if op == "map_empty":
            return u.enc(w.call(m.is_empty), "bool")
        raise AssertionError(op)


def distinct_ok(vals):
    return all(not (a == b) for i, a in enumerate(vals) for b in vals[:i] if a is not None and b is not None)


def maps_replay(w):
    n = w.input["n"]
    universe = w.input["universe"]
    kinds = w.input["kinds"]
    ki = 0
    for rep in range(w.input["reps"]):
        for st in w.input["maps"]:
            ki += 1
            u = Universe(kinds[ki % len(kinds)], n)
            mu = MapU(VALS[(ki // 3) % len(VALS)], u)
            w.doing("range map from %s over %s" % (st["ps"], u.kind))
            out = w.call(mu.build, st["ps"], (ki // 7) % 4)
            got = [1] if out[0] == "ok" else u.enc(out, "bool")
            if not accepts(st["build"], got):
                w.mismatch("building a range map from %s over %s endpoints: specification says %s, code gives %s" % (
                    st["ps"], u.kind, st["build"], got), ps=st["ps"], kind=u.kind, got=got)
            if out[0] != "ok" or st["build"] != [1]:
                continue
            m = out[1]

            def check(c, e):
                got = mu.query(w, m, c)
                if e == [mu.nul] and got == [] and c["op"] in ("map_get", "map_rightmost", "map_leftmost"):
                    return
                if not accepts(e, got):
                    w.mismatch("range map %s, %s over %s endpoints: specification says %s, code gives %s" % (
                        st["ps"], c, u.kind, e, got), ps=st["ps"], query=c, kind=u.kind, expected=e, got=got)
            for op, es in st["vq"].items():
                for i, e in enumerate(es, 1):
                    check(dict(op=op, v=i), e)
            if mu.hashable:      # the values enclosed come as a set
                for q, e in zip(universe, st["enclosed"]):
                    check(dict(op="map_enclosed", q=q), e)
            check(dict(op="map_dict"), st["dict"])
            check(dict(op="map_empty"), st["empty"])
            if w.full():
                return


def rand_pairs(rnd, n, nv):
    mode = rnd.random()
    ps = []
    if mode < 0.75:
        c = rnd.randint(0, 3)
        while c < 2 * n - 1 and len(ps) < max(12, n // 2):
            e = min(2 * n, max(1, c + rnd.randint(1, 4)))
            ps.append(dict(k=[c, e], x=rnd.randint(1, nv)))
            c = e + rnd.randint(1, 5)
        if ps and rnd.random() < 0.2:
            ps[-1]["k"][1] = 2 * n + 1
        rnd.shuffle(ps)
        if ps and rnd.random() < 0.25:   # spoil: duplicate key, touching key or empty key
            k = rnd.choice(ps)["k"]
            z = rnd.random()
            if z < 0.4:
                ps.append(dict(k=list(k), x=rnd.randint(1, nv)))
            elif z < 0.7 and k[1] < 2 * n - 1:
                ps.append(dict(k=[k[1], k[1] + 1], x=rnd.randint(1, nv)))
            else:
                c = rnd.randint(1, 2 * n)
                ps.append(dict(k=[c, c], x=rnd.randint(1, nv)))
        elif len(ps) > 20 and rnd.random() < 0.4:    # one of them unlike the others, the last as likely as not
            one = max(ps, key=lambda p: p["k"]) if rnd.random() < 0.5 else rnd.choice(ps)
            for p in ps:
                p["x"] = 2 if p is one else 1
    else:
        ps = [dict(k=rand_range(rnd, n, 0.1), x=rnd.randint(1, nv)) for _ in range(rnd.randint(0, 3))]
    return ps


def maps_record(w):
    rnd = w.rnd
    n = w.input["n"]
    for h in range(w.input["maps"]):
        u = Universe(KINDS[h % len(KINDS)], n)
        mu = MapU(rnd.choice(VALS), u)
        ps = rand_pairs(rnd, n, 5)
        w.doing("range map %s over %s" % (ps, u.kind))
        made = []     # the maps there are, each with the pairs it was built from

        def built(ps, out):
            w.record(dict(op="build", ps=ps, kind=u.kind, hash=1, res=[1] if out[0] == "ok" else u.enc(out, "bool")))
            if out[0] == "ok":
                made.append((ps, out[1]))
        if h % 3 == 0:
            # one builder asked for a map again and again while it is being filled
            b = ImmutableRangeMap.builder()
            for i, p in enumerate(ps):
                if rnd.random() < 0.3:
                    built(ps[:i], w.call(b.build))
                b.put(u.r(p["k"]), mu.val(p["x"]))
            built(ps, w.call(b.build))
            if rnd.random() < 0.3:
                built(ps, w.call(b.build))
        else:
            built(ps, w.call(mu.build, ps, rnd.randint(0, 4)))
        if not made:
            continue
        near = [x for p in ps for x in p["k"]] or [1]
        for _ in range(w.input["per"]):
            def cut():
                return max(0, min(2 * n + 1, rnd.choice(near) + rnd.randint(-2, 2))) if rnd.random() < 0.7 \
                    else rnd.randint(0, 2 * n + 1)
            k = rnd.random()
            if k < 0.7:
                c = dict(op=rnd.choice(["map_get", "map_contains", "map_rightmost", "map_leftmost"]),
                         v=max(1, min(n, (cut() + 1) // 2)))
            elif k < 0.9:
                a, b = sorted((cut(), cut()))
                if a == 2 * n + 1 or b == 0 or rnd.random() < 0.2:
                    a, b = 0, 2 * n + 1
                c = dict(op="map_enclosed" if mu.hashable else "map_dict", q=[a, b])
            else:
                c = dict(op=rnd.choice(["map_dict", "map_empty"]))
            of, m = made[-1] if rnd.random() < 0.6 else rnd.choice(made)
            rec = dict(c, ps=of, kind=u.kind, hash=1, nul=mu.nul)
            rec["res"] = mu.query(w, m, c)
            w.record(rec)


# ------------------------------------------------------------------ copies, equality, hashes
COPIERS = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [
    ("pickle%d" % p, (lambda p: lambda x: pickle.loads(pickle.dumps(x, p)))(p)) for p in range(pickle.HIGHEST_PROTOCOL + 1)]


def persist_record(w):
    rnd = w.rnd
    n = w.input["n"]

    travelling = []      # pickled here, opened in another process where hashes are different

    def travels(x, kind, spec):
        if rnd.random() < 0.3 and len(travelling) < 400:
            if rnd.random() < 0.7:
                w.call(hash, x)
            o = w.call(pickle.dumps, x, rnd.randrange(pickle.HIGHEST_PROTOCOL + 1))
            if o[0] == "ok":
                travelling.append(dict(spec, pickled=o[1], kind=kind, n=n))

    def eqhash(a, b, same):
        o = w.call(lambda: [a == b, not (a != b), b == a])
        if o[0] != "ok":
            res = [-2]
        else:
            res = [1] if o[1] == [True] * 3 else [0] if o[1] == [False] * 3 else [-79]
        h = w.call(lambda: hash(a) == hash(b))
        return res, (1 if not same else (1 if h[0] == "ok" and h[1] else 0))

    kinds = [k for k in KINDS if k != "collide"] + ["collide"]
    count = w.input["count"]
    for h in range(count):
        u = Universe(kinds[h % len(kinds)], n)
        u2 = Universe("float" if u.kind in ("float",) else u.kind, n)
        which = rnd.random()
        cname, cp = COPIERS[h % len(COPIERS)]
        # copies of copies, and copies after hashing (nothing may be cached wrongly)
        twice = rnd.random() < 0.2

        def dup(x):
            y = cp(x)
            return cp(y) if twice else y
        if which < 0.3:
            a = rand_range(rnd, n)
            b = a if rnd.random() < 0.5 else rand_range(rnd, n)
            w.doing("%s of range %s over %s" % (cname, a, u.kind))
            x = u.r(a)
            travels(u.r(a), u.kind, dict(op="range_eq", a=a, b=a))
            if rnd.random() < 0.5:
                hash(x)
            o = w.call(dup, x)
            if o[0] != "ok":
                w.mismatch("%s of range %s over %s endpoints raised %s" % (cname, a, u.kind, o[1]), a=a)
                continue
            y = o[1]
            res, hs = eqhash(x, y, True)
            w.record(dict(op="range_eq", a=a, b=a, res=res, hash=hs, how=cname, kind=u.kind))
            res, hs = eqhash(y, u.r(b), a == b)
            w.record(dict(op="range_eq", a=a, b=b, res=res, hash=hs, how=cname, kind=u.kind))
            for op in rnd.sample(UN, 4):
                c = dict(op=op, a=a)
                fn = {"is_empty": (y.is_empty, "bool"), "has_lower": (y.has_lower_bound, "bool"),
                      "has_upper": (y.has_upper_bound, "bool"),
                      "lower_endpoint": (lambda: y.lower_endpoint, "value"),
                      "upper_endpoint": (lambda: y.upper_endpoint, "value"),
                      "lower_type": (lambda: y.lower_bound_type, "bound"),
                      "upper_type": (lambda: y.upper_bound_type, "bound")}[op]
                w.record(dict(c, res=u.enc(w.call(fn[0]), fn[1]), hash=1, how=cname, kind=u.kind))
            z = u.r(b)
            for op, fn, t in (("encloses", y.encloses, "bool"), ("is_connected", y.is_connected, "bool"),
                              ("span", y.span, "range"), ("intersection", y.intersection, "range")):
                w.record(dict(op=op, a=a, b=b, res=u.enc(w.call(fn, z), t), hash=1, how=cname, kind=u.kind))
            v = rnd.randint(1, n)
            w.record(dict(op="rcontains", a=a, v=v, res=u.enc(w.call(lambda: u.v(v) in y), "bool"), hash=1,
                          how=cname, kind=u.kind))
        elif which < 0.65:
            adds = [rand_range(rnd, n) for _ in range(rnd.choice([0, 1, 2, 3, 6]))]
            adds = [a for a in adds if a[1] - a[0] < n or rnd.random() < 0.3]
            how = rnd.randint(0, 2)
            w.doing("%s of range set %s over %s" % (cname, adds, u.kind))
            x = build_set(u, adds, how)
            travels(x, u.kind, dict(op="set_eq", adds=adds, adds2=adds, made=how))
            o = w.call(dup, x)
            if o[0] != "ok":
                w.mismatch("%s of range set %s over %s endpoints raised %s" % (cname, adds, u.kind, o[1]), adds=adds)
                continue
            y = o[1]
            if isinstance(y, MutableRangeSet) != isinstance(x, MutableRangeSet) or \
                    isinstance(y, ImmutableRangeSet) != isinstance(x, ImmutableRangeSet):
                w.mismatch("%s of a %s gives a %s" % (cname, type(x).__name__, type(y).__name__), adds=adds)
                continue
            res, hs = eqhash(x, y, True)
            w.record(dict(op="set_eq", adds=adds, adds2=adds, res=res, hash=hs, how=cname, kind=u.kind))
            # another construction: shuffled, possibly one range different or split differently
            other = [list(a) for a in adds]
            rnd.shuffle(other)
            z = rnd.random()
            if z < 0.3 and other:
                other = fragments(rnd, [a for a in other if a[0] < a[1]])
            elif z < 0.6:
                other.append(rand_range(rnd, n))
            elif z < 0.7 and other:
                other.pop()
            yy = build_set(u2, other, rnd.randint(0, 2))
            same = union_of(adds) == union_of(other)
            res, hs = eqhash(y, yy, same)
            w.record(dict(op="set_eq", adds=adds, adds2=other, res=res, hash=hs, how=cname, kind=u.kind))
            for _ in range(6):
                near = [q for a in adds for q in a] or [1]
                cut = lambda: max(0, min(2 * n + 1, rnd.choice(near) + rnd.randint(-2, 2)))
                k = rnd.random()
                if k < 0.4:
                    c = dict(op=rnd.choice(VQ), v=max(1, min(n, (cut() + 1) // 2)))
                elif k < 0.8:
                    p, q = sorted((cut(), cut()))
                    if p == 2 * n + 1 or q == 0:
                        p, q = 0, 2 * n + 1
                    c = dict(op=rnd.choice(RQ), q=[p, q])
                else:
                    c = dict(op=rnd.choice(WQ))
                w.record(dict(c, adds=adds, res=do_query(w, u, y, c), hash=1, how=cname, kind=u.kind))
            if isinstance(y, MutableRangeSet):
                # the copy is independent of the original, and still coalesces
                extra = rand_range(rnd, n)
                o = w.call(y.add, u.r(extra))
                if o[0] != "ok":
                    w.mismatch("adding to a %s of range set %s raised %s" % (cname, adds, o[1]), adds=adds, added=extra)
                    continue
                w.record(dict(op="as_ranges", adds=adds + [extra], res=do_query(w, u, y, dict(op="as_ranges")),
                              hash=1, how=cname, kind=u.kind))
                w.record(dict(op="as_ranges", adds=adds, res=do_query(w, u, x, dict(op="as_ranges")),
                              hash=1, how=cname + " original", kind=u.kind))
        else:
            vals = rnd.randrange(len(VALS))
            mu = MapU(VALS[vals], u)
            ps = rand_pairs(rnd, n, 5)
            o = w.call(mu.build, ps, rnd.randint(0, 3))
            if o[0] != "ok":
                continue
            x = o[1]
            if mu.hashable:
                travels(x, u.kind, dict(op="map_eq", ps=ps, ps2=ps, vals=vals))
            w.doing("%s of range map %s over %s" % (cname, ps, u.kind))
            o = w.call(dup, x)
            if o[0] != "ok":
                w.mismatch("%s of range map %s over %s endpoints raised %s" % (cname, ps, u.kind, o[1]), ps=ps)
                continue
            y = o[1]
            res, hs = eqhash(x, y, mu.hashable)
            w.record(dict(op="map_eq", ps=ps, ps2=ps, res=res, hash=hs, how=cname, kind=u.kind))
            ps2 = [dict(p) for p in ps]
            z = rnd.random()
            if z < 0.25 and ps2:
                ps2[rnd.randrange(len(ps2))]["x"] = rnd.randint(1, 5)
            elif z < 0.4 and ps2:
                ps2.pop()
            elif z < 0.5:
                ps2 = rand_pairs(rnd, n, 5)
            # duplicates of a key resolve by order, so only duplicate-free lists are reordered
            if len({tuple(p["k"]) for p in ps2}) == len(ps2):
                rnd.shuffle(ps2)
            o2 = w.call(mu.build, ps2, rnd.randint(0, 3))
            if o2[0] == "ok":
                same = {(tuple(p["k"])): p["x"] for p in ps} == {(tuple(p["k"])): p["x"] for p in ps2}
                res, hs = eqhash(y, o2[1], same and mu.hashable)
                w.record(dict(op="map_eq", ps=ps, ps2=ps2, res=res, hash=hs, how=cname, kind=u.kind))
            near = [q for p in ps for q in p["k"]] or [1]
            for _ in range(6):
                cut = lambda: max(0, min(2 * n + 1, rnd.choice(near) + rnd.randint(-2, 2)))
                k = rnd.random()
                if k < 0.7:
                    c = dict(op=rnd.choice(["map_get", "map_contains", "map_rightmost", "map_leftmost"]),
                             v=max(1, min(n, (cut() + 1) // 2)))
                else:
                    c = dict(op=rnd.choice(["map_dict", "map_empty"]))
                w.record(dict(c, ps=ps, res=mu.query(w, y, c), hash=1, how=cname, kind=u.kind, nul=mu.nul))
            for other in (x.range_set, 3, None, "x", Range.all()):
                res, _ = eqhash(x, other, False)
                w.record(dict(op="cross_eq", res=res, hash=1, how="cross", kind=u.kind))
    w.doing("pickles opened in another process")
    env = dict(os.environ, PYTHONHASHSEED=str(rnd.randint(1, 10 ** 6)))
    child = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "travel.py")] + sys.path,
                           input=pickle.dumps(travelling), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    if child.returncode:
        w.mismatch("opening pickles of ranges, range sets and range maps in another process failed: %s"
                   % child.stderr.decode("utf-8", "replace")[-400:])
        return
    for t, (res, hs) in zip(travelling, json.loads(child.stdout.decode("utf-8"))):
        t = {k: v for k, v in t.items() if k not in ("pickled", "n", "vals", "made")}
        w.record(dict(t, res=res, hash=hs, how="pickled, opened in another process"))


def union_of(adds):
    s = set()
    for a in adds:
        s.update(range(a[0], a[1]))
    return s
