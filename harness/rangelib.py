"""Concrete endpoint universes and the encoding of ranges as cuts (real-code side)."""
import datetime
import decimal
import fractions
import functools

from vistautils.range import BoundType, Range


@functools.total_ordering
class Weird:
    """A user-defined ordered endpoint; equality by value, never by identity."""

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return self.k < o.k

    def __eq__(self, o):
        return isinstance(o, Weird) and self.k == o.k

    def __hash__(self):
        return hash(("weird", self.k))

    def __repr__(self):
        return "Weird(%d)" % self.k


class Bare:
    """What the documentation asks of endpoints, and no more: `<`, consistent with `==`."""

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return self.k < o.k

    def __eq__(self, o):
        return isinstance(o, Bare) and self.k == o.k

    def __hash__(self):
        return hash(("bare", self.k))

    def __repr__(self):
        return "Bare(%d)" % self.k


NUMBERS = [int, float, fractions.Fraction, decimal.Decimal]
_turn = [0]


class Collide(Weird):
    """All hashes equal."""

    def __hash__(self):
        return 7


def _fresh(kind, n, i):
    """The i-th (1-based) of n ascending endpoints of this kind, as a new object."""
    if kind == "int":
        return i
    if kind == "int0":          # around zero: falsy endpoint in the middle
        return i - (n + 1) // 2
    if kind == "neg":           # all negative, -1 and -2 hash alike
        return i - n - 1 + 0
    if kind == "big":
        return int(str(10 ** 20)) + 1000 * i
    if kind == "sparse":
        return int(str(1000 * i * i))
    if kind == "float":
        return float(str(i)) / 4.0 - 0.5
    if kind == "mixed":
        return i if i % 2 else float(str(i))
    if kind == "inf":
        if i == 1:
            return float("-inf")
        if i == n:
            return float("inf")
        return float(i)
    if kind == "str":           # "" is the least string
        return "".join(["a"] * (i - 1))
    if kind == "ustr":
        return "".join([chr(0x4E00 + 37 * i), "\u00e9"])
    if kind == "bytes":
        return bytes([i]) if n < 256 else bytes([i // 256, i % 256])
    if kind == "date":
        return datetime.date(2000, 1, 1) + datetime.timedelta(days=31 * i)
    if kind == "delta":
        return datetime.timedelta(days=i - (n + 1) // 2)
    if kind == "frac":
        return fractions.Fraction(i * 7 - 11, 3)
    if kind == "dec":
        return decimal.Decimal(str(i)) / 8
    if kind == "tuple":
        return () if i == 1 else (i // 3, str(i % 3))
    if kind == "weird":
        return Weird(i)
    if kind == "collide":
        return Collide(i)
    if kind == "bare":
        return Bare(i)
    if kind == "numbers":       # equal endpoints of different types, from one use to the next
        _turn[0] += 1
        return NUMBERS[(_turn[0] * 7 // 3) % 4](i)
    if kind == "bool":
        return bool(i - 1) if n <= 2 else i
    raise AssertionError(kind)


KINDS = ["int", "int0", "neg", "big", "sparse", "float", "mixed", "inf", "str", "ustr", "bytes", "date",
         "delta", "frac", "dec", "tuple", "weird", "collide", "bare", "numbers"]


class Universe:
    def __init__(self, kind, n):
        self.kind, self.n, self.where = kind, n, None
        self.table = [_fresh(kind, n, i) for i in range(1, n + 1)]

    def v(self, i):
        return _fresh(self.kind, self.n, i)

    def index(self, x):
        if self.n > 60:     # many endpoints: looked up, and compared all the same
            if self.where is None:
                self.where = {t: i for i, t in enumerate(self.table, 1)}
            try:
                i = self.where.get(x, 0)
            except TypeError:
                i = 0
            if i and x == self.table[i - 1] and (type(x) is type(self.table[i - 1]) or isinstance(x, (int, float))):
                return i
        for i, t in enumerate(self.table, 1):
            if type(x) is type(t) or isinstance(x, (int, float)) or (self.kind == "numbers" and type(x) in NUMBERS):
                if x == t:
                    return i
        return -77

    @property
    def top(self):
        return 2 * self.n + 1

    def make(self, lo, hi):
        """The range with these cuts, through the public factories."""
        if lo == 0 and hi == self.top:
            return Range.all()
        if lo == 0:
            f = Range.less_than if hi % 2 else Range.at_most
            return f(self.v((hi + 1) // 2))
        if hi == self.top:
            f = Range.at_least if lo % 2 else Range.greater_than
            return f(self.v((lo + 1) // 2))
        f = {(1, 1): Range.closed_open, (1, 0): Range.closed,
             (0, 1): Range.open, (0, 0): Range.open_closed}[(lo % 2, hi % 2)]
        return f(self.v((lo + 1) // 2), self.v((hi + 1) // 2))

    def r(self, p):
        return self.make(p[0], p[1])

    # --- encoding of results
    def cuts(self, r):
        if not isinstance(r, Range):
            return [-77, -77]
        try:
            if r.has_lower_bound():
                i = self.index(r.lower_endpoint)
                lo = 2 * i - 1 if r.lower_bound_type is BoundType.closed() else 2 * i
            else:
                lo = 0
            if r.has_upper_bound():
                i = self.index(r.upper_endpoint)
                hi = 2 * i if r.upper_bound_type is BoundType.closed() else 2 * i - 1
            else:
                hi = self.top
            return [lo, hi]
        except Exception:
            return [-78, -78]

    def enc(self, out, what):
        """outcome of Worker.call -> integer sequence of the specification"""
        if out[0] == "hang":
            return [-3]
        if out[0] == "err":
            return [-1] if isinstance(out[2], ValueError) else [-2]
        x = out[1]
        if what == "bool":
            return [1] if x is True else [0] if x is False else [-77]
        if what == "range":
            return self.cuts(x)
        if what == "optrange":
            return [] if x is None else self.cuts(x)
        if what == "ranges":          # a collection without duplicates, order not observed
            try:
                l = [self.cuts(r) for r in x]
            except Exception:
                return [-77]
            return [c for r in sorted(l) for c in r]
        if what == "rangeseq":        # ordered
            try:
                return [c for r in x for c in self.cuts(r)]
            except Exception:
                return [-77]
        if what == "int":
            return [x] if type(x) is int else [-77]
        if what == "value":
            return [self.index(x)]
        if what == "bound":
            return [1] if x is BoundType.closed() else [0] if x is BoundType.open() else [-77]
        raise AssertionError(what)


def accepts(expected, got):
    return got == expected or (expected == [-9] and got in ([-1], [-2]))
