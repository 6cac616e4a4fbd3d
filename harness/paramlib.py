"""Parameter trees: between Python's nested mappings, flat entries as recorded for TLC, and the code's Parameters."""
import json
from collections import ChainMap, OrderedDict, UserDict
from collections.abc import Mapping
from datetime import date
from pathlib import Path
from types import MappingProxyType

from immutablecollections import immutabledict

from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

LIM = 1 << 27


def leaf(v):
    """[type, text, ten times the number]"""
    if v is None:
        return "null", "", 0
    if isinstance(v, bool):
        return "bool", "true" if v else "false", 10 * int(v)
    if isinstance(v, int):
        return "int", str(v), 10 * v if abs(v) < LIM else 0
    if isinstance(v, float):
        n = v * 10 if v == v and abs(v) < LIM else 0
        return "float", repr(v), int(n) if n == int(n) else 0
    if isinstance(v, str):
        return "str", v, 0
    if isinstance(v, (list, tuple)):
        return "list", json.dumps([type(v).__name__, [inner(x) for x in v]], sort_keys=True), 0
    return "other", type(v).__name__ + ":" + repr(v), 0


def inner(v):
    if isinstance(v, Mapping):
        return ["map", sorted([k, inner(x)] for k, x in v.items())]
    if isinstance(v, Parameters):
        return ["params", sorted([k, inner(x)] for k, x in v.as_nested_dicts().items())]
    return list(leaf(v))


def entries(nested, path=()):
    out = []
    for k, v in nested.items():
        p = path + (k,)
        if isinstance(v, Parameters):
            v = v.as_nested_dicts()
        if isinstance(v, Mapping):
            out.append(dict(p=list(p), t="ns", v="", n=0))
            out += entries(v, p)
        else:
            t, x, n = leaf(v)
            out.append(dict(p=list(p), t=t, v=x, n=n))
    return out


def entries_of(params):
    return entries(params.as_nested_dicts())


def leaf_entry(path, v):
    t, x, n = leaf(v)
    return dict(p=list(path), t=t, v=x, n=n)


STRINGS = ["yes", "null", "1", "1.0", "~", "", " lead", "trail ", "a: b", "# c", "- x", "two\nlines", "tab\tbed", "quote'\"", "é日本", "%", "100%", "!tag",
           "&a", "*a", "@x", "`", "2001-01-01", "0x1F", "1e3", ".5", "=", "<<", "\\", "{a}", "[x]", "a,b", "\n", "a\n\nb\n", " \n x", "\u2028", "\x85", "\ufeff",
           "\x07", "word " * 40, "x" * 200, "  indented\n    more\n", "😀", "true", "No", "off", "0", "a#b", "a #b", "a:b", ":", "?", "-", "--- x", "...", "% %",
           "1_000", "0o17", "12:30:45", ".inf", "NaN", "None", "\r", "a\r\nb", "word " * 20 + "\n" + "word " * 20, "trailing space \nline", "'", '"', "|", ">", "%a", "two  spaces " * 30, "line  one\n" * 40, ("x" * 79 + "  ") * 3, "a\u0301  b" * 25, "a" * 5000,
           "e\u0301", "\u212b", "\ufb01", " " * 90, "\n" * 20, "ab" * 40 + "\t\t" + "cd" * 40]
NAMES = ["a", "b", "c", "name", "x1", "under_score", "dash-ed", "yes", "1", "null", "a b", "é", "~", "-", "key:", "#k", "k" * 140, "_includes2", "%", "0", "A", "true", "<<", "=",
         "import", "value", "?", "'q'", "2001-01-01", "tab\tbed", " a", "a ", "b ", "\u2003c", "a\u00a0", "e\u0301", "\u212b", "A\u030a", "\ufb01x", "\u212a", "k" * 139 + "j", "long_name_of_a_parameter_1", "long_name_of_a_parameter_2",
         "stra\u00dfe", "strasse"]


def rand_scalar(rnd, null=False):
    z = rnd.random()
    if z < 0.35:
        return rnd.choice(STRINGS)
    if z < 0.55:
        return rnd.choice([0, 1, -1, 5, 10 ** 20, -3, 42, rnd.randint(-1000, 1000)])
    if z < 0.75:
        return rnd.choice([0.0, -0.5, 1.5, 1e300, 1e-9, float("inf"), float("-inf"), 3.0, -0.0, rnd.randint(-99, 99) / 2])
    if z < 0.9 or not null:
        return rnd.choice([True, False])
    return None


def rand_leaf(rnd, null=False, deep=2):
    if deep and rnd.random() < 0.2:
        return [rand_inner(rnd, deep - 1) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
    return rand_scalar(rnd, null)


def rand_inner(rnd, deep):
    if deep and rnd.random() < 0.3:
        return {rnd.choice(NAMES): rand_leaf(rnd, deep=deep - 1) for _ in range(rnd.randint(0, 2))}
    return rand_leaf(rnd, rnd.random() < 0.2, deep=deep)


def grown(rnd, trees, often=0.02):
    """Now and then: the trees much deeper, or much wider."""
    z = rnd.random()
    if z < often:
        chain = [rnd.choice(["a", "b", "deep"]) for _ in range(rnd.choice([5, 6, 7, 9, 12, 20]))]
        out = []
        for t in trees:
            for k in chain:
                t = {k: t} if rnd.random() < 0.7 else {k: t, "n%d" % rnd.randint(0, 9): {}}
            out.append(t)
        return out
    if z < 2 * often:
        out = []
        for t in trees:
            wide = {"wide%d" % i: rand_scalar(rnd) if z < 1.7 * often or i % 4 == 0 else {}
                    for i in rnd.sample(range(160), rnd.choice([11, 20, 40, 40, 130]))}
            if rnd.random() < 0.3:
                wide["many"] = [rand_scalar(rnd) for _ in range(rnd.choice([30, 100]))]
            out.append(dict(t, **wide) if rnd.random() < 0.5 else dict(wide, **t))
        return out
    return trees


def rand_tree(rnd, names, depth=3, width=3, null=False, scalars=False):
    out = {}
    for _ in range(rnd.randint(0, width)):
        k = rnd.choice(names)
        below = [v for v in out.values() if isinstance(v, dict)]
        if below and rnd.random() < 0.15:
            out[k] = rnd.choice(below)       # the same again
        elif depth and rnd.random() < 0.45:
            out[k] = rand_tree(rnd, names, depth - 1, width, null, scalars)
        else:
            out[k] = rand_scalar(rnd, null) if scalars else rand_leaf(rnd, null)
    return out


class OwnMapping(Mapping):
    """A mapping of the user's own kind."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


MAPPINGS = [dict, dict, dict, dict, OrderedDict, lambda d: MappingProxyType(dict(d)), UserDict, lambda d: ChainMap(dict(d)), lambda d: immutabledict(list(d.items())), OwnMapping]


def as_mapping(rnd, nested, params=True, made=None):
    """The same tree as some mixture of mappings and Parameters; equal parts are sometimes one object."""
    out = {}
    made = {} if made is None else made
    for k, v in nested.items():
        if isinstance(v, Mapping):
            key = repr(v)
            if key in made and rnd.random() < 0.7:
                v = made[key]
            else:
                v = as_mapping(rnd, v, params, made)
                if params and rnd.random() < 0.2:
                    v = Parameters.from_mapping(v)
                made[key] = v
        out[k] = v
    return rnd.choice(MAPPINGS)(out)


def has_empty(nested):
    return any(isinstance(v, Mapping) and (not v or has_empty(v)) for v in nested.values())


def pairs_of(nested, path=()):
    out = []
    for k, v in nested.items():
        if isinstance(v, Mapping):
            out += pairs_of(v, path + (k,))
        else:
            out.append((path + (k,), v))
    return out


def to_params(rnd, nested, w=None):
    z = rnd.random()
    if z < 0.15 and not has_empty(nested):
        ps = [(".".join(p), v) for p, v in pairs_of(nested)]
        rnd.shuffle(ps)
        return Parameters.from_key_value_pairs(ps)
    if z < 0.25:
        return Parameters([(k, to_params(rnd, v) if isinstance(v, Mapping) else v) for k, v in nested.items()])
    if z < 0.35 and nested:
        # by unification of parts
        ks = list(nested)
        cut = rnd.randint(0, len(ks))
        return Parameters.from_mapping({k: nested[k] for k in ks[:cut]}).unify({k: nested[k] for k in ks[cut:]})
    return Parameters.from_mapping(as_mapping(rnd, nested))
