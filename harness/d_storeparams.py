"""Drivers for key-value stores described by parameters."""
import functools
import os
import shutil
import sys
import zipfile
from pathlib import Path

from immutablecollections import immutabledict
from paramlib import entries, entries_of

from vistautils.key_value import (KeyValueLinearSource, KeyValueSink, KeyValueSource, byte_key_value_linear_source_from_params,
                                  byte_key_value_sink_from_params, byte_key_value_source_from_params,
                                  char_key_value_linear_source_from_params, char_key_value_sink_from_params,
                                  char_key_value_source_from_params)
from vistautils.parameters import Parameters

FUNCTIONS = {("source", False): char_key_value_source_from_params, ("source", True): byte_key_value_source_from_params,
             ("linear", False): char_key_value_linear_source_from_params, ("linear", True): byte_key_value_linear_source_from_params,
             ("sink", False): char_key_value_sink_from_params, ("sink", True): byte_key_value_sink_from_params}
KEYS = ["a", "b.txt", "A", "\u00e9\u4e2d", "x y", "sub/k1", "0", "%s", "k" * 60, "-n", "key=value"]
TEXTS = ["v1", "", "line\n", "\u00e9\u4e2d\U0001f600", "\ufeffbom", "x" * 3000, "0", "\n\n", "tab\t "]
NO_TEXTS = [b"\xff\xfe", b"\xed\xa0\x80x", bytes(range(128, 256))]
LITERALS = ["None", "5", "'zip'", "[]", "dict", "list"]


class Source(KeyValueSource):
    by = ""

    def keys(self):
        return None

    def get(self, key, _default=None):
        return _default

    def __getitem__(self, key):
        raise KeyError(key)

    def __exit__(self, *a):
        return False

    def __len__(self):
        return 0


class Linear(KeyValueLinearSource):
    by = ""

    def items(self, key_filter=None):
        return iter([])

    def __exit__(self, *a):
        return False


class Sink(KeyValueSink):
    by = ""

    def put(self, key, value):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Both(Source, Sink):
    pass


class Neither:
    by = ""


ROLES = {Source: ["source", "linear"], Linear: ["linear"], Sink: ["sink"], Both: ["source", "linear", "sink"], Neither: []}


class Bench:
    def __init__(self, w):
        self.w = w
        self.calls = []
        self.dotted = {}
        d = w.scratch("modules")
        os.makedirs(os.path.join(d, "vt8_p"), exist_ok=True)
        src = "import vt8_registry\ndef __getattr__(name):\n    try:\n        return vt8_registry.BENCH.dotted[__name__, name]\n    except KeyError:\n        raise AttributeError(name)\n"
        for f in ("vt8_m.py", "vt8_p/__init__.py", "vt8_p/q.py"):
            with open(os.path.join(d, f), "w") as o:
                o.write(src)
        with open(os.path.join(d, "vt8_registry.py"), "w") as o:
            o.write("BENCH = None\n")
        sys.path.insert(0, d)
        import vt8_registry
        vt8_registry.BENCH = self

    def note(self, by, arg):
        if arg is None:
            self.calls.append(dict(by=by, arg="none", tree=[], prefix=[]))
        elif isinstance(arg, Parameters):
            full = ".".join(arg.namespace_prefix)
            self.calls.append(dict(by=by, arg="params", tree=entries_of(arg), prefix=full.split(".") if full else []))
        else:
            self.calls.append(dict(by=by, arg="something else", tree=[], prefix=[]))

    def make(self, rnd, by, kind, makes, base):
        """-> an object to be named by parameters"""
        bench = self

        def finish(arg):
            bench.note(by, arg)
            if makes == "fails":
                raise rnd.choice([KeyError, TypeError, AttributeError, ValueError])("no")
            o = base()
            o.by = by
            return o
        if kind == "fn":
            z = rnd.randint(0, 3)
            if z == 0:
                return lambda params: finish(params)
            if z == 1:
                return functools.partial(lambda one, params: finish(params), 1)
            if z == 2:
                class Callable:
                    def __call__(self, params):
                        return finish(params)

                    def __len__(self):
                        return 0
                return Callable()

            class Holder:
                @staticmethod
                def make(params):
                    return finish(params)
            return Holder.make
        if kind == "classfp":
            class WithFrom(base):
                @staticmethod
                def from_parameters(params):
                    return finish(params)

            class Inheriting(WithFrom):
                pass
            return rnd.choice([WithFrom, Inheriting])

        class Plain(base):
            def __init__(self, *args):
                bench.note(by, args[0] if args else None)
                if makes == "fails":
                    raise ValueError("no")
                self.by = by
        return Plain


NAMES = ["s", "l", "k", "c", "x", "n", "b", "p", "KeyValueSource", "KeyValueSink", "Path", "CharSource", "helper"]


def rand_world(bench, rnd):
    things, objects, exprs = {}, {}, {}
    bench.dotted = {}
    for n, kind, makes, base in [("s", "fn", "made", Source), ("s2", "classfp", "made", Source), ("l", rnd.choice(["fn", "classfp"]), "made", Linear),
                                 ("k", "classfp", "made", Sink), ("k2", "fn", "made", Sink), ("c", "class", "made", rnd.choice([Source, Sink, Linear])),
                                 ("x", rnd.choice(["fn", "classfp", "class"]), "fails", Both), ("n", rnd.choice(["fn", "classfp", "class"]), "made", Neither),
                                 ("b", rnd.choice(["fn", "classfp"]), "made", Both)]:
        objects[n] = bench.make(rnd, n, kind, makes, base)
        things[n] = dict(kind=kind, makes=makes, roles=ROLES[base], role="", bytes=False)
    objects["p"] = Both()
    things["p"] = dict(kind="plain", makes="", roles=[], role="", bytes=False)
    for (role, by), f in FUNCTIONS.items():
        n = "described %s %s" % (role, by)
        things[n] = dict(kind="described", makes="", roles=[], role=role, bytes=by)
        exprs["vistautils.key_value." + f.__name__] = dict(form="dotted", mod=["vistautils", "key_value"], id=n)
    for n, i in [("s", "s"), ("l", "l"), ("k", "k"), ("c", "c"), ("x", "x"), ("n", "n"), ("b", "b"), ("p", "p"), ("KeyValueSource", "s2"), ("KeyValueSink", "k2"),
                 ("Path", rnd.choice(["s", "k"])), ("CharSource", rnd.choice(["l", "b"])), ("helper", rnd.choice(["s2", "k", "n"]))]:
        exprs[n] = dict(form="bare", mod=[], id=i)
    for mod in (["vt8_m"], ["vt8_p"], ["vt8_p", "q"]):
        for n, i in [("s", "s"), ("k", "k"), ("x", "x"), ("S", "s2"), ("b", "b")]:
            exprs[".".join(mod + [n])] = dict(form="dotted", mod=mod, id=i)
            bench.dotted[".".join(mod), n] = objects[i]
    exprs["vt8_no.s"] = dict(form="dotted", mod=["vt8_no"], id="s")
    for t in ["ZIP", "Zip", "file_map", "file-maps", "directory", "dir", "zzz", "1 +", "vt8_m.missing", "zip ", "", "from_params"]:
        exprs[t] = dict(form="bad", mod=[], id="")
    for t in LITERALS:
        exprs[t] = dict(form="literal", mod=[], id="p")
    return things, objects, exprs


def kind_of(path):
    if path.is_dir():
        fs = os.listdir(str(path))
        return "dir" if not fs else "store" if "_index" in fs else "other"
    if path.exists():
        return "zip" if zipfile.is_zipfile(str(path)) else "junk" if path.read_bytes().startswith(b"nothing") else "map"
    return "none"


def imports_in(nested, path=()):
    """What namespaces import: [p, ok, mods]"""
    out = []
    for k, v in nested.items():
        if isinstance(v, dict):
            out += imports_in(v, path + (k,))
    if "import" in nested and not isinstance(nested["import"], dict):
        im = nested["import"]
        ok = im is None or (isinstance(im, list) and all(isinstance(m, str) for m in im))
        out.append(dict(p=list(path), ok=ok, mods=[m.split(".") for m in im or []] if ok else []))
    return out


class History:
    """Requests made one after another over a few places."""

    def __init__(self, w, bench, where, starts, vals=None):
        self.w, self.bench, self.rnd = w, bench, w.rnd
        rnd = w.rnd
        if where.exists():
            shutil.rmtree(str(where))
        where.mkdir(parents=True)
        self.places = {n: where / (n + rnd.choice(["", ".zip", " x", "é", "_index", ".txt", ".tar.gz"])) for n in starts}
        self.starts = starts
        self.keys = [None] + rnd.sample(KEYS, 4)
        self.vals = vals or [None] + rnd.sample(TEXTS, 4) + rnd.sample(NO_TEXTS, 1)
        self.start_items = {}
        for n, k in starts.items():
            if k == "dir":
                self.places[n].mkdir()
            elif k == "junk":
                self.places[n].write_text("nothing of the kind\n" * rnd.choice([1, 50]))
            if k == "map":
                # somebody else's
                its = [dict(k=1, v=1), dict(k=2, v=2)] if vals else [dict(k=k, v=rnd.randint(1, len(self.vals) - 1)) for k in rnd.sample(range(1, len(self.keys)), rnd.choice([0, 1, 2, 4]))]
                self.start_items[n] = its
                (where / "elsewhere").mkdir(exist_ok=True)
                lines = []
                for it in its:
                    f = where / "elsewhere" / ("%s%d" % (n, it["k"]))
                    f.write_bytes(self.raw(it["v"], True))
                    lines.append("%s\t%s" % (self.keys[it["k"]], f))
                self.places[n].write_bytes("".join(x + "\n" for x in lines).encode("utf-8"))
        self.things, self.objects, self.exprs = rand_world(bench, rnd)
        self.paths = {}
        self.steps = []
        for m in [m for m in sys.modules if m.startswith("vt8_") and m != "vt8_registry"]:
            del sys.modules[m]

    def path(self, place, at):
        p = self.places[place]
        if at:
            p = p / at
        t = str(p)
        z = self.rnd.random()
        if z < 0.25:
            t = os.path.relpath(t)
        elif z < 0.35:
            t = os.path.join(os.path.dirname(t), ".", os.path.basename(t))
        self.paths[t] = dict(place=place, at=at)
        return t

    def world(self):
        pairs = lambda d: [dict(n=n, v=v) for n, v in d.items()]
        return dict(things=pairs(self.things), exprs=pairs(self.exprs), mods=[["vt8_m"], ["vt8_p"], ["vt8_p", "q"], ["vistautils"], ["vistautils", "key_value"]],
                    paths=pairs(self.paths), text=[i for i, v in enumerate(self.vals) if i and isinstance(v, str)])

    def raw(self, v, as_bytes):
        v = self.vals[v]
        return v if isinstance(v, bytes) == as_bytes else v.encode("utf-8") if as_bytes else v

    def vid(self, x):
        for i, t in enumerate(self.vals):
            if i and isinstance(x, (str, bytes)):
                if (t.encode("utf-8") if isinstance(t, str) else t) == (x.encode("utf-8", "surrogatepass") if isinstance(x, str) else x):
                    return i
        return -77

    def kid(self, k):
        return self.keys.index(k) if k in self.keys[1:] else -77

    def read(self, src, role, out):
        flavours = set()

        def val(x):
            flavours.add("bytes" if isinstance(x, bytes) else "str" if isinstance(x, str) else type(x).__name__)
            return self.vid(x)
        with src as s:
            if role == "source":
                got = []
                for k in s.keys():
                    try:
                        v = val(s[k])
                        if self.vid(s.get(k)) != v or self.vid(s.get(k, None)) != v:
                            v = -60
                    except UnicodeDecodeError:
                        v = -2
                    got.append(dict(k=self.kid(k), v=v))
                if s.get("no such key") is not None:
                    got.append(dict(k=-61, v=-61))
                out.update(keyed=True, got=got)
            try:
                out["through"] = [dict(k=self.kid(k), v=val(v)) for k, v in s.items()]
                out["all"] = "ok"
            except UnicodeDecodeError:
                out.update(through=[], all="err")
        if not out["keyed"] and out["all"] == "err":
            # what was read before is of the flavour; of nothing nothing is known
            out["flavour"] = "unknown"
        else:
            out["flavour"] = "none" if not flavours else flavours.pop() if len(flavours) == 1 else "mixed"

    def request(self, role, as_bytes, nested, p, ctx_names, items, flavour, default_ns, prefix=()):
        w, rnd = self.w, self.rnd
        ps = Parameters.from_mapping(nested, **(dict(namespace_prefix=list(prefix)) if prefix else {}))
        before = entries_of(ps)
        ctx = {n: self.objects[self.exprs[n]["id"]] for n in ctx_names}
        kw = {}
        if ctx or rnd.random() < 0.3:
            kw["eval_context"] = immutabledict(list(ctx.items())) if rnd.random() < 0.4 else dict(ctx)
        elif rnd.random() < 0.3:
            kw["eval_context"] = None
        if not default_ns or rnd.random() < 0.2:
            kw["output_namespace" if role == "sink" else "input_namespace"] = ".".join(p)
        self.bench.calls = []
        out = dict(k="err", by="", flavour="none", keyed=False, got=[], all="ok", through=[])
        made = w.call(FUNCTIONS[role, as_bytes], ps, **kw)
        calls = self.bench.calls
        if made[0] == "hang":
            out["k"] = "hang"
        elif made[0] == "ok":
            o = made[1]
            if getattr(o, "by", "") and isinstance(o, (Source, Linear, Sink, Neither)):
                out.update(k="made", by=o.by)
            elif role == "sink":
                def write():
                    with o as s:
                        for it in items:
                            s.put(self.keys[it["k"]], self.raw(it["v"], flavour))
                r = w.call(write)
                out["k"] = "wrote" if r[0] == "ok" else r[0]
            else:
                r = w.call(self.read, o, role, out)
                out["k"] = "reads" if r[0] == "ok" else r[0]
        same = True
        if kw.get("eval_context") is not None:
            after = kw["eval_context"]
            same = set(after) == set(ctx) and all(after[n] is ctx[n] for n in ctx)
        self.steps.append(dict(role=role, bytes=as_bytes, p=list(p), tree=before, after=entries_of(ps), ctx=list(ctx_names), imps=imports_in(nested), items=items if role == "sink" else [],
                               prefix=list(prefix), calls=calls, out=out, ctxsame=same, fs=[dict(n=n, v=kind_of(x)) for n, x in self.places.items()]))
        return out

    def record(self):
        if self.steps:
            self.w.record(dict(w=self.world(), start=[dict(n=n, v=dict(k=v, items=self.start_items.get(n, []))) for n, v in self.starts.items()], steps=self.steps))


def store_replay(w):
    bench = Bench(w)
    base = Path(w.scratch("stores"))
    os.chdir(str(base))
    for n, c in enumerate(w.input["cases"]):
        h = History(w, bench, base / ("p%d" % (n % 40)), c["start"], [None, "one", b"\xff\xfe"] if n % 2 else [None, "", b"\x80"])
        for st in c["steps"]:
            role = st["role"]
            ns = {}
            if st["type"]:
                ns["type"] = st["type"]
            if st["path"]:
                ns["path"] = h.path(st["path"][0], "_index" if st["path"].endswith("i") else "")
            p = ["output" if role == "sink" else "input"]
            w.doing(("replay", c))
            out = h.request(role, st["bytes"], {p[0]: ns}, p, [x for x in ("s", "l", "k", "c", "x", "p") if st["ctx"]], st["its"], st["bytes"], True)
            want = st["want"]
            if want != "any":
                bad = out["k"] != want
                if want == "reads" and not bad and (role == "source" or all(v != -2 for _, v in st["items"])):
                    bad = sorted((e["k"], e["v"]) for e in (out["got"] if role == "source" else out["through"])) != sorted(map(tuple, st["items"]))
                if bad:
                    w.mismatch("described store %s of %s (%s) after %s: specification says %s %s, code gives %s" % (
                        ns, role, "bytes" if st["bytes"] else "text", c["steps"][:c["steps"].index(st)], want, st["items"], out), case=c)
                    break
        h.record()
        if w.full():
            return


def store_record(w):
    rnd = w.rnd
    bench = Bench(w)
    base = Path(w.scratch("stores"))
    os.chdir(str(base))
    for n in range(w.input["histories"]):
        h = History(w, bench, base / ("r%d" % (n % 20)), {x: rnd.choice(["dir", "dir", "none", "none", "junk", "map"]) for x in "abcdef"})
        functions = {}
        for t, e in h.exprs.items():
            if e["id"].startswith("described"):
                functions[t] = (h.things[e["id"]]["role"], h.things[e["id"]]["bytes"])
        for _ in range(rnd.choice([3, 6, 10])):
            role = rnd.choice(["sink", "sink", "source", "source", "source", "linear"] if len(h.steps) > 1 else ["sink", "sink", "source"])
            as_bytes = rnd.random() < 0.5
            ctx = rnd.choice([[], [], NAMES, NAMES, rnd.sample(NAMES, 3), rnd.sample(NAMES, 7)])

            def namespace(role, as_bytes, depth):
                """-> nested, the flavour a sink of it would have"""
                nonlocal ctx
                ns = {}
                flavour = as_bytes
                z = rnd.random()
                im = None
                if z < 0.2:
                    pass
                elif z < 0.55:
                    ns["type"] = rnd.choice(["zip", "zip", "file-map", "directory"] if role == "sink" else ["zip", "zip", "file-map"])
                elif z < 0.7:
                    ns["type"] = rnd.choice(NAMES)
                    if rnd.random() < 0.7:
                        ns["type"] = rnd.choice([x for x in NAMES if role in h.things[h.exprs[x]["id"]]["roles"]])
                    if rnd.random() < 0.5 and depth == 2:
                        ctx = sorted(set(ctx) | {ns["type"]})
                elif z < 0.82:
                    ns["type"] = rnd.choice([t for t in h.exprs if t.startswith("vt8")])
                    im = rnd.choice([["vt8_m", "vt8_p.q"], ["vt8_p.q", "vt8_m"], ["vt8_m", "vt8_p.q"], ["vt8_p.q", "vt8_m"], ["vt8_m"], ["vt8_p.q"], ["vt8_p"], ["vt8_no"], "vt8_m", 5, None, []])
                elif z < 0.92 and depth:
                    same = [t for t, (r, _) in functions.items() if (r == "sink") == (role == "sink")]
                    ns["type"] = rnd.choice(same if role == "sink" or rnd.random() < 0.9 else list(functions))
                    r2, flavour = functions[ns["type"]]
                    if r2 == "sink" and role != "sink":
                        # (would have no effect: the wrong kind of thing)
                        pass
                    inner, flavour = namespace(r2, flavour, depth - 1)
                    if inner is not None:
                        ns["output" if r2 == "sink" else "input"] = inner
                    im = rnd.choice([["vistautils.key_value"], ["vistautils.key_value", "vt8_m"], ["vt8_m", "vistautils.key_value"]])
                else:
                    ns["type"] = rnd.choice([t for t, e in h.exprs.items() if e["form"] in ("bad", "literal")] + [None, 5, True])
                if "type" in ns and isinstance(ns["type"], str) and ns["type"] in ("zip", "file-map", "directory") and rnd.random() < 0.1:
                    im = ["vt8_m"]
                if im is not None:
                    ns["import"] = im
                if rnd.random() < 0.95:
                    place = rnd.choice(list(h.places))
                    how = ns.get("type") or ("directory" if role == "sink" else "file-map")
                    k = kind_of(h.places[place])
                    # mostly something that makes sense
                    fits = {"zip": ("none", "zip", "junk", "map") if role == "sink" else ("zip",), "directory": ("dir",), "file-map": ("dir",) if role == "sink" else ("store", "map")}.get(how)
                    if fits and k not in fits and rnd.random() < 0.85:
                        good = [x for x in h.places if kind_of(h.places[x]) in fits]
                        place = rnd.choice(good or [place])
                    at = "" if kind_of(h.places[place]) == "map" else "_index" if role != "sink" and ((how == "file-map") == (rnd.random() < 0.96)) else ""
                    ns["path"] = h.path(place, at) if rnd.random() < 0.97 else rnd.choice(["", str(base / "nowhere" / "at all")]) if role != "sink" else h.path(place, "")
                for _ in range(rnd.choice([0, 0, 1, 2])):
                    ns[rnd.choice(["k", "other", "keys", "factory", "mode", "docIdToFileMap"])] = rnd.choice([1, "x", [1], {"type": "zip"}, "zip", False])
                if role != "sink" and rnd.random() < 0.02:
                    ns["value"] = rnd.choice(["s", "zip"])
                if rnd.random() < 0.02:
                    ns = None
                return ns, flavour

            default_ns = rnd.random() < 0.75
            p = ["output" if role == "sink" else "input"] if default_ns else rnd.choice([["input"], ["output"], ["n", "in"], ["type"], ["other"]])
            ns, flavour = namespace(role, as_bytes, 2)
            nested = {"q": 1, "type": "zip", "path": "nowhere", "output": {"path": "nowhere"}, "input": {"path": "nowhere"}}
            if p != ["type"]:
                nested["type"] = rnd.choice(["zip", "s"])
            d = nested
            for k in p[:-1]:
                d[k] = {}
                d = d[k]
            if ns is not None:
                d[p[-1]] = ns
            else:
                d.pop(p[-1], None)
            items = [dict(k=k, v=rnd.choice([i for i, v in enumerate(h.vals) if i and (flavour or isinstance(v, str))])) for k in rnd.sample(range(1, len(h.keys)), rnd.choice([0, 1, 2, 3, 4]))]
            w.doing((role, as_bytes, nested, ctx))
            h.request(role, as_bytes, nested, p, ctx, items, flavour, default_ns, prefix=["pre", "fix"] if rnd.random() < 0.15 else [])
        h.record()
