"""Drivers for spans, span indexes and annotated text."""
import copy
import pickle
import re

from attr import attrib, attrs

from immutablecollections import immutabledict

from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
from vistautils.span import HasSpan, HasSpanIndex, Span

SHIFTS = [0, 0, 3, -1, -1000, 10 ** 6, 10 ** 30, -10 ** 18, 10 ** 400, -10 ** 400]


class Holder(HasSpan):
    def __init__(self, span):
        self.span = span


class IntSub(int):
    pass


def mk(rnd, s, e):
    z = rnd.random()
    if z < 0.2:
        return Span.from_inclusive_to_exclusive(s, e)
    if z < 0.3:
        return Span.from_inclusive_to_exclusive(start_inclusive=s, end_exclusive=e)
    if z < 0.5:
        return Span(start=s, end=e)
    return Span(s, e)


def pr(x):
    return [] if x is None else [x.start, x.end]


def as_iterable(rnd, xs):
    z = rnd.randint(0, 4)
    if z == 0:
        return tuple(xs)
    if z == 1:
        return iter(xs)
    if z == 2:
        return (x for x in xs)
    return list(xs)


def copied(rnd, a):
    z = rnd.randint(0, 8)
    if z == 0:
        return copy.copy(a)
    if z == 1:
        return copy.deepcopy(a)
    if z <= pickle.HIGHEST_PROTOCOL + 2:
        return pickle.loads(pickle.dumps(a, z - 2))
    return a


make_span = mk


def spans_replay(w):
    rnd = w.rnd
    lo = w.input["lo"]
    for n, c in enumerate(w.input["pairs"]):
        k = rnd.choice(SHIFTS)
        a0, b0 = c["a"], c["b"]

        def check(what, fn, want):
            r = w.call(fn)
            if r[0] != "ok" or r[1] != want or type(r[1]) is not type(want):
                w.mismatch("%s for spans %s and %s moved by %d: specification says %s, code gives %s" % (what, a0, b0, k, want, r[1:]),
                           case=c, moved=k)
        a, b = mk(rnd, a0[0] + k, a0[1] + k), mk(rnd, b0[0] + k, b0[1] + k)
        if rnd.random() < 0.2:
            a, b = copied(rnd, a), copied(rnd, b)
        w.doing(c)
        check("contains_span", lambda: a.contains_span(b), bool(c["contains"]))
        check("in", lambda: b in a, bool(c["contains"]))
        check("contains_span of an item", lambda: Holder(a).contains_span(b), bool(c["contains"]))
        check("precedes", lambda: a.precedes(b), bool(c["precedes"]))
        check("follows", lambda: a.follows(b), bool(c["follows"]))
        check("overlaps", lambda: a.overlaps(b), bool(c["overlaps"]))
        meet = [x + k for x in c["meet"]]
        check("intersection", lambda: pr(a.intersection(b)), meet)
        check("clip_to", lambda: pr(a.clip_to(b)), meet)
        if n % 5 == 0:
            check("len", lambda: len(a), c["len"])
            check("contains_offset", lambda: [1 if a.contains_offset(i + k) else 0 for i in range(lo - 1, lo - 1 + len(c["offs"]))], c["offs"])
            check("contains_offset of an item", lambda: [1 if Holder(a).contains_offset(i + k) else 0 for i in range(lo - 1, lo - 1 + len(c["offs"]))], c["offs"])
            check("as_range", lambda: [1 if i + k in a.as_range() else 0 for i in range(lo - 1, lo - 1 + len(c["offs"]))], c["offs"])
            check("ends of an item", lambda: [Holder(a).start, Holder(a).end], [a0[0] + k, a0[1] + k])
            check("repr", lambda: repr(a), "[%d:%d)" % (a0[0] + k, a0[1] + k))
            z = rnd.randint(-9, 9)
            check("shift", lambda: pr(a.shift(z)), [a0[0] + k + z, a0[1] + k + z])
        if w.full():
            return
    for c in w.input["colls"]:
        k = rnd.choice(SHIFTS)
        w.doing(c)
        spans = [mk(rnd, x[0] + k, x[1] + k) for x in c["coll"]]
        r = w.call(lambda: pr(Span.minimal_enclosing_span(as_iterable(rnd, spans))))
        if r[0] != "ok" or r[1] != [x + k for x in c["enclose"]]:
            w.mismatch("minimal span enclosing %s: specification says %s, code gives %s" % (c["coll"], c["enclose"], r[1:]), case=c)
        r = w.call(lambda: [pr(x) for x in sorted(spans, key=Span.earliest_then_longest_first_key)])
        if r[0] != "ok" or r[1] != [[x[0] + k, x[1] + k] for x in c["sorted"]]:
            w.mismatch("sorting %s: specification says %s, code gives %s" % (c["coll"], c["sorted"], r[1:]), case=c)
        if w.full():
            return


NOT_SPANS = [("a", 3), (1, "b"), (1.5, 3), (1, 2.5), (None, 3), (1, None), ("a", "b"), (0.0, 1.0), ([1], [2])]


def spans_record(w):
    rnd = w.rnd
    for _ in range(w.input["rounds"]):
        wide = rnd.choice([4, 12, 1000000])

        def sp():
            a, b = rnd.randint(-wide, wide), rnd.randint(-wide, wide)
            if a == b:
                b += 1
            return [min(a, b), max(a, b)]
        a, b = sp(), sp()
        z = rnd.random()
        if z < 0.3:        # ends in common
            b = sorted([rnd.choice(a), rnd.choice(a) + rnd.randint(-2, 2)])
            b = b if b[0] < b[1] else [b[0], b[0] + 1]
        elif z < 0.4:
            b = [a[1], a[1] + rnd.randint(1, 3)]
        n = rnd.choice([a[0], a[0] - 1, a[1], a[1] - 1, a[1] + 1, rnd.randint(-wide, wide)])
        coll = [sp() for _ in range(rnd.choice([0, 1, 2, 3, 6]))]
        if rnd.random() < 0.02:     # many, of which the last say more
            coll = [sp()] * rnd.choice([15, 70, 130]) + coll
        coll += [rnd.choice(coll) for _ in range(rnd.choice([0, 1]))] if coll else []
        op = rnd.choice(["make", "make", "contains_offset", "contains", "precedes", "follows", "overlaps", "meet", "meet", "shift", "len",
                         "range", "equal", "copy", "enclose", "sort"])
        if op == "make":
            a = [a[0], rnd.choice([a[1], a[0], a[0] - 1, -a[1], a[0] + 1])]
        rec = dict(op=op, a=a, b=b, n=n, coll=coll, out=[], res="ok")
        # sometimes all lengths are multiplied: by more than fits a machine word, too
        m = 1 if op == "len" else rnd.choice([1, 1, 1, 3, 2 ** 31, 2 ** 62, 2 ** 63, 10 ** 30, 10 ** 400])
        mk = lambda rnd, s, e: make_span(rnd, s * m, e * m)
        pr = lambda x: [] if x is None else [x.start // m, x.end // m] if x.start % m == x.end % m == 0 else [-7777, x.start % m % 1000]

        def go():
            if op == "make":
                return pr(mk(rnd, a[0], a[1]))
            A, B = mk(rnd, *a), mk(rnd, *b)
            if op == "contains_offset":
                return [1 if A.contains_offset(n * m) else 0]
            if op == "contains":
                return [1 if rnd.choice([lambda: B in A, lambda: A.contains_span(B)])() else 0]
            if op in ("precedes", "follows", "overlaps"):
                return [1 if getattr(A, op)(B) else 0]
            if op == "meet":
                return pr(rnd.choice([A.intersection, A.clip_to])(B))
            if op == "shift":
                return pr(A.shift(n * m))
            if op == "len":
                return [len(A)]
            if op == "range":
                r = A.as_range()
                return [1 if n * m in r else 0, r.lower_endpoint // m, r.upper_endpoint // m]
            if op == "equal":
                same = A == B
                if (A != B) == same or (same and hash(A) != hash(B)):
                    return [-1]
                return [1 if same else 0, 1 if len({A, B}) == 1 else 0]
            if op == "copy":
                C = copied(rnd, A)
                return pr(C) if C == A and hash(C) == hash(A) else [-1]
            q = [mk(rnd, *c) for c in coll]
            if op == "enclose":
                return pr(Span.minimal_enclosing_span(as_iterable(rnd, q)))
            return [pr(s) for s in sorted(q, key=Span.earliest_then_longest_first_key)]
        w.doing(rec)
        r = w.call(go)
        rec["res"] = "ok" if r[0] == "ok" else r[1]
        rec["out"] = r[1] if r[0] == "ok" else []
        w.record(rec)
    for s, e in NOT_SPANS:
        r = w.call(Span, s, e)
        if r[0] != "err":
            w.mismatch("Span(%r, %r), whose ends are not integers, was made" % (s, e), start=repr(s), end=repr(e))
    r = w.call(setattr, Span(1, 2), "start", 0)
    if r[0] != "err":
        w.mismatch("a span could be changed")


# --------------------------------------------------------------------------- indexes
@attrs(frozen=True, slots=True, hash=True)
class Item(HasSpan):
    span = attrib(cmp=False, hash=False)
    val = attrib()


def index_query(w, items, objs, kind, made, q, k=0):
    rec = dict(items=items, kind=kind, q=q, made=made[0], e=[], o=[], d=[], g=[])
    if made[0] == "ok":
        idx = made[1]
        sp = Span(q[0] + k, q[1] + k)

        def num(x):
            for i, o in enumerate(objs, 1):
                if o is x:
                    return i
            return 0
        for f, m in (("e", "get_exactly_matching"), ("o", "get_overlapping"), ("d", "get_contained"), ("g", "get_containing")):
            r = w.call(getattr(idx, m), sp)
            if r[0] != "ok":
                rec[f] = [0]
                rec["err"] = "%s: %s" % (m, r[2])
            elif kind == "disjoint" and f in "eg":
                rec[f] = [] if r[1] is None else [num(r[1])]
            else:
                rec[f] = sorted(num(x) for x in r[1])
    w.record(rec)


def index_record(w):
    rnd = w.rnd

    def run(items, queries, vals):
        k = rnd.choice(SHIFTS)
        objs = [Item(Span(s + k, e + k), vals[v]) for s, e, v in items]
        for kind in ("any", "disjoint"):
            w.doing("%s %s" % (kind, items))
            given = list(objs)
            made = w.call(lambda: (HasSpanIndex.index if kind == "any" else HasSpanIndex.index_disjoint)(as_iterable(rnd, given)
                                                                                                         if rnd.random() < 0.5 else given))
            # what was handed over is the caller's again
            z = rnd.random()
            if z < 0.3:
                given.clear()
            elif z < 0.6 and items:
                given.append(Item(Span(items[0][0] + k, items[0][1] + k), "later"))
            elif z < 0.7:
                given.reverse()
                del given[::2]
            for q in (queries if made[0] == "ok" else queries[:1]):
                index_query(w, items, objs, kind, made, q, k)
    allv = ["a", 0, None, "", 1.5, (), b"", "x", "y", "z", "p", "q"]
    for c in w.input["cases"]:
        run(c["items"], [x["q"] for x in c["answers"]], dict(zip([1, 2, 3], rnd.sample(allv, 3))))
    for _ in range(w.input["random"]):
        disjoint = rnd.random() < 0.6
        n = rnd.choice([0, 1, 3, 6, 12, 12, 30, 70, 150] if _ % 4 else [0, 1, 2, 3, 12])
        items = []
        if disjoint:
            at = rnd.randint(-20, 5)
            for i in range(n):
                at += rnd.choice([0, 0, 1, 3])
                ln = rnd.choice([1, 1, 2, 5])
                items.append([at, at + ln, rnd.randint(1, 12) if rnd.random() < 0.8 else 1])
                at += ln
            rnd.shuffle(items)
            if items and rnd.random() < 0.2:
                x = rnd.choice(items)
                items.insert(rnd.randrange(len(items) + 1), [x[0] + rnd.randint(-1, 1), x[1] + rnd.randint(0, 1), 1 + x[2] % 12])
                items = [x for x in items if x[0] < x[1]]
        else:
            for i in range(n):
                s = rnd.randint(0, max(15, 2 * n))
                items.append([s, s + rnd.choice([1, 2, 5, 10, n]), rnd.randint(1, 12)])
            if items and rnd.random() < 0.5:
                x = rnd.choice(items)
                items.extend([x[0], x[1], rnd.choice([13 + i, 13 + i, rnd.randint(1, 12)])] for i in range(rnd.choice([1, 1, 1, 2, 12, 100])))
        qs = []
        for _ in range(5):
            if items and rnd.random() < 0.8:
                pts = [p for x in items for p in x[:2]]
                s, e = rnd.choice(pts) + rnd.choice([0, 0, 0, 1, -1]), rnd.choice(pts) + rnd.choice([0, 0, 0, 1, -1])
            else:
                s, e = rnd.randint(-25, 25), rnd.randint(-25, 25)
            s, e = min(s, e), max(s, e)
            qs.append([s, e if e > s else s + 1])
        run(items, qs, dict(zip(range(1, 113), rnd.sample(allv, 12) + ["item%d" % i for i in range(100)])))


# --------------------------------------------------------------------------- annotated text
LABELS = ["L", "LINE", "L1", "L-x", "Lé", "div", "span", "l", "ns:L", "DIV"]
ATTRS = [[], [("k", "v")], [("k", "w")], [("class", "z"), ("B", ""), ("a", "é")], [("b", "2"), ("a", "1")], [("class", "x y"), ("B", ""), ("a", "é")], [("id", "0")], [("class", "c")],
         [("k", " v")], [("k", "v ")], [("class", " c  d ")], [("k", "&amp;")], [("k", "<&>")], [("k", "'")], [("k", "v\n")], [("K", "v")], [("k", "%s{}\\n")], [("k", "v,w")],
         [("k1", "1"), ("k10", "2"), ("k2", "3")], [("class", "V")],
         [("n%d" % i, "v%d" % (i % 7)) for i in range(80)]]
TEXTCH = ["a", " ", "<", ">", "&", "\n", "é", "\U0001f600", "/", '"', "b", "\u2028", "\r", "\t", "\0", "\u0301", "\ufeff", "%", "\\", "{", "\x85", "A"]


def start_string(lab, at):
    return "<" + lab + "".join(' %s="%s"' % kv for kv in sorted(at)) + ">"


def annotate_record(w):
    rnd = w.rnd
    starts = {(l, a): start_string(LABELS[l], ATTRS[a]) for l in range(len(LABELS)) for a in range(len(ATTRS))}
    tags = {}
    for (l, a), s in starts.items():
        tags[s] = [1, l + 1, a + 1]
    for l, s in enumerate(LABELS):
        tags["</%s>" % s] = [2, l + 1, 0]
    formatters = [HTMLStyleAnnotationFormatter() for _ in range(2)]
    pat = re.compile("(" + "|".join(sorted(map(re.escape, tags), key=len, reverse=True)) + ")")

    def tokens(s, back):
        out = []
        for i, piece in enumerate(pat.split(s)):
            if i % 2:
                out.append(tags[piece])
            else:
                out += [[0, back.get(c, 99), 0] for c in piece]
        return out

    def annotation(label, attributes, span):
        z = rnd.random()
        if not attributes and z < 0.5:
            return AnnotatedSpan(label, span)
        if z < 0.5 and [k for k, _ in attributes] == ["class"]:
            if label == "div":
                return AnnotatedSpan.create_div_of_class(span, attributes[0][1])
            if label == "span":
                return AnnotatedSpan.create_span_of_class(span, attributes[0][1])
        given = rnd.sample(attributes, len(attributes))
        return AnnotatedSpan(label, span, rnd.choice([dict, immutabledict, list])(given))

    def run(n, ws, anns, usewin):
        """n characters, window beginning at ws; annotations [label, attributes, start, end]"""
        chars = [rnd.choice(TEXTCH) for _ in range(n)]
        back = {c: i + 1 for i, c in enumerate(TEXTCH)}
        text = "".join(chars)
        rec = dict(text=[back[c] for c in chars], ws=ws, anns=anns, out=[], res="ok")
        made = w.call(lambda: [annotation(LABELS[l - 1], ATTRS[a - 1], Span(s, e)) for l, a, s, e in anns])
        if made[0] != "ok":
            rec["res"] = "%s %s" % (made[1], made[2])
            w.record(rec)
            return
        aa = rnd.choice([list, tuple])(made[1])
        kw = dict(text_offsets=Span(ws, ws + n)) if usewin else {}
        w.doing(rec)
        # some are used again and again
        formatter = rnd.choice(formatters + [HTMLStyleAnnotationFormatter()])
        r = w.call(lambda: formatter.annotated_text(text, aa, **kw))
        if r[0] != "ok" or not isinstance(r[1], str):
            rec["res"] = "%s %s" % (r[1], r[2])
        else:
            rec["out"] = tokens(r[1], back)
        w.record(rec)
    for c in w.input["cases"]:
        anns = [[rnd.randint(1, len(LABELS)) if rnd.random() < 0.6 else 1 + i % len(LABELS), rnd.randint(1, len(ATTRS)), s, e]
                for i, (s, e) in enumerate(c["anns"])]
        run(c["n"], c["ws"], anns, c["n"] > 0 and (c["ws"] > 0 or rnd.random() < 0.5))
    for _ in range(w.input["random"]):
        n = rnd.choice([0, 1, 2, 5, 9, 20])
        big = rnd.random() < 0.015      # a long text, elements nested deeply
        if big:
            n = rnd.choice([70, 150])
        ws = rnd.choice([0, 0, 1, 7, 1000, 10 ** 9]) if n else 0
        spans = []
        if rnd.random() < 0.6:          # a forest: pick nested spans
            def nest(s, e, d):
                if e - s < 1 or d > (40 if big else 4):
                    return
                for _ in range(rnd.choice([0, 1, 1, 2])):
                    spans.append([s, e])
                if big and rnd.random() < 0.8 and e - s > 2:      # just inside
                    nest(s + rnd.randint(0, 1), e - rnd.randint(0, 1), d + 1)
                    return
                m = sorted(rnd.randint(s, e) for _ in range(rnd.choice([0, 1, 2])))
                for x, y in zip([s] + m, m + [e]):
                    if rnd.random() < 0.7:
                        nest(x, y, d + 1)
            nest(ws - rnd.randint(0, 3), ws + n + rnd.randint(0, 3), 0)
        else:
            for _ in range(rnd.choice([0, 1, 2, 4])):
                s = ws + rnd.randint(-4, n + 2)
                spans.append([s, s + rnd.choice([1, 1, 2, 3, n + 3])])
        if big and rnd.random() < 0.4:      # very many, one after the other
            spans = [[ws + i, ws + i + 1] for i in range(n)]
        rnd.shuffle(spans)
        few = rnd.sample(range(1, len(LABELS) + 1), rnd.choice([1, 2, len(LABELS)]))
        anns = [[rnd.choice(few), rnd.randint(1, len(ATTRS)), s, e] for s, e in spans[:150 if big else 12]]
        run(n, ws, anns, n > 0 and (ws > 0 or rnd.random() < 0.5))
    # a window of another length than the text is refused
    for n, s, e in ((3, 0, 2), (3, 5, 9), (0, 0, 1), (2, 0, 3)):
        r = w.call(lambda: HTMLStyleAnnotationFormatter().annotated_text("x" * n, [], text_offsets=Span(s, e)))
        if r[0] != "err":
            w.mismatch("a window of %d offsets was accepted for a text of %d" % (e - s, n))
