"""Drivers for objects made from parameters."""
import functools
import os
import sys

from paramlib import *

from vistautils.parameters import Parameters

MODS = {"m": "vt7_m", "p": "vt7_p", "q": "q"}  # the specification's module names, and ours


class Thing:
    pass


class Empty(Thing):
    def __len__(self):
        return 0


class Other:
    pass


class Made(Thing):
    def __init__(self, by):
        self.by = by


class MadeOther:
    def __init__(self, by):
        self.by = by


class Fails(Exception):
    pass


class Bench:
    """What a request works on; calls of factories are noted in the request on top of the stack."""

    def __init__(self, w):
        self.w = w
        self.stack = []
        self.dotted = {}
        d = w.scratch("modules")
        src = "import vt7_registry\ndef __getattr__(name):\n    try:\n        return vt7_registry.BENCH.dotted[__name__, name]\n    except KeyError:\n        raise AttributeError(name)\n"
        os.makedirs(os.path.join(d, "vt7_p"), exist_ok=True)
        for f in ("vt7_m.py", "vt7_p/__init__.py", "vt7_p/q.py"):
            with open(os.path.join(d, f), "w") as o:
                o.write(src)
        with open(os.path.join(d, "vt7_registry.py"), "w") as o:
            o.write("BENCH = None\n")
        with open(os.path.join(d, "vt7_broken.py"), "w") as o:
            o.write("raise ImportError('broken')\n")
        sys.path.insert(0, d)
        import vt7_registry
        vt7_registry.BENCH = self

    def note(self, by, arg):
        if arg is None:
            self.stack[-1]["calls"].append(dict(by=by, arg="none", tree=[], prefix=[]))
        elif isinstance(arg, Parameters):
            full = ".".join(arg.namespace_prefix)
            self.stack[-1]["calls"].append(dict(by=by, arg="params", tree=entries_of(arg), prefix=full.split(".") if full else []))
        else:
            self.stack[-1]["calls"].append(dict(by=by, arg="something else: %r" % (arg,), tree=[], prefix=[]))

    def finish(self, by, makes, arg=None, inner=None):
        self.note(by, arg)
        if inner and isinstance(arg, Parameters):
            inner(arg)
        if makes == "fails":
            raise self.w.rnd.choice([Fails, TypeError, KeyError, AttributeError, NameError, ValueError])()
        return Made(by) if makes == "good" else MadeOther(by)

    def make(self, rnd, name, kind, makes, inner=None):
        bench = self
        if kind == "plain":
            return rnd.choice([Thing, Empty])() if makes == "good" else Other()

        def function(params=None):
            return bench.finish(name, makes, params, inner)
        if kind == "fn":
            z = rnd.randint(0, 5)
            if z == 0:
                return lambda *p: function(*p)
            if z == 1:
                return functools.partial(lambda one, p: function(p), 1)
            if z == 2:
                class Callable(Thing):
                    def __call__(self, params):
                        return function(params)
                return Callable()
            if z == 3:
                class Maker:
                    @classmethod
                    def build(cls, params):
                        return function(params)
                return Maker.build
            if z == 4:
                class Falsy:
                    def __call__(self, params):
                        return function(params)

                    def __len__(self):
                        return 0
                return Falsy()
            return function
        if kind == "classfp":
            z = rnd.randint(0, 3)
            if z == 0:
                class K:
                    @staticmethod
                    def from_parameters(params):
                        return function(params)
                return K
            if z == 1:
                class K(Thing):
                    @classmethod
                    def from_parameters(cls, params):
                        return function(params)
                return K
            if z == 2:
                class B:
                    @staticmethod
                    def from_parameters(params):
                        return function(params)

                class K(B):
                    pass
                return K

            class K:
                from_parameters = functools.partial(function)

                def __init__(self, one, two):
                    raise AssertionError("constructed")
            return K
        base = Made if makes == "good" else MadeOther

        class C(base):
            def __init__(self, *args):
                bench.note(name, args[0] if args else None)
                if makes == "fails":
                    raise bench.w.rnd.choice([Fails, TypeError, KeyError, AttributeError])()
                self.by = name
        return C


LITERALS = ["[]", "'text'", "5", "0", "True", "{}", "''", "None"]


def rand_world(bench, rnd, expected, inner):
    things, exprs, objects = {}, {}, {}
    bench.dotted = {}

    def add(name, kind, makes, inner=None):
        o = bench.make(rnd, name, kind, makes, inner)
        objects[name] = o
        things[name] = dict(kind=kind, good=isinstance(o, expected), makes="" if kind == "plain" else makes_as(kind, makes, expected))
    for n, k, m in [("good", "plain", "good"), ("bad", "plain", "bad"), ("other", "plain", "good"), ("fn", "fn", "good"), ("fp", "classfp", "good"),
                    ("cls", "class", "good"), ("wrong", "fn", "bad"), ("fail", rnd.choice(["classfp", "fn", "fn"]), "fails"), ("dflt", "fn", "good")]:
        if n == "fn" and rnd.random() < 0.3:
            k = "classfp"
        if n in ("fp", "fn") and rnd.random() < 0.4:
            add(n, k, m, inner)
        else:
            add(n, k, m)
    for n, i in [("g", "good"), ("b", "bad"), ("f", "fn"), ("c", "cls"), ("w", "wrong"), ("x", "fail"), ("gg", "other")]:
        exprs[n] = dict(form="bare", mod=[], id=i)
    for mod in (["vt7_m"], ["vt7_p"], ["vt7_p", "q"]):
        for n, i in [("g", "good"), ("f", "fp"), ("w", "wrong"), ("c", "cls")]:
            exprs[".".join(mod + [n])] = dict(form="dotted", mod=mod, id=i)
            bench.dotted[".".join(mod), n] = objects[i]
    exprs["vt7_no.g"] = dict(form="dotted", mod=["vt7_no"], id="good")
    exprs["vt7_broken.g"] = dict(form="dotted", mod=["vt7_broken"], id="good")
    for t in ("1 +", "zzz", "vt7_m.missing", "vt7_p.missing.f", "1/0", "lambda"):
        exprs[t] = dict(form="bad", mod=[], id="")
    for t in LITERALS:
        exprs[t] = dict(form="literal", mod=[], id="literal " + t)
        objects["literal " + t] = eval(t)
        things["literal " + t] = dict(kind="plain", good=isinstance(eval(t), expected), makes="")
    w = dict(things=[dict(n=n, v=v) for n, v in things.items()], exprs=[dict(n=n, v=v) for n, v in exprs.items()],
             mods=[["vt7_m"], ["vt7_p"], ["vt7_p", "q"]])
    return w, objects, exprs, things


def makes_as(kind, makes, expected):
    if makes == "fails":
        return "fails"
    return "good" if isinstance((Made if makes == "good" else MadeOther)(""), expected) else "bad"


def identify(objects, got):
    if isinstance(got, (Made, MadeOther)):
        return dict(k="made", id="", by=got.by)
    for n, o in objects.items():
        if o is got and not n.startswith("literal"):
            return dict(k="obj", id=n, by="")
    for n, o in objects.items():
        if n.startswith("literal") and type(o) == type(got) and o == got:
            return dict(k="obj", id=n, by="")
    return dict(k="obj", id="unknown %s" % type(got).__name__, by="")


def perform(w, bench, ps, req, world, objects, expected, style):
    for m in [m for m in sys.modules if m.startswith("vt7_") and m != "vt7_registry"]:
        del sys.modules[m]
    names = {n: objects[e["v"]["id"]] for e in world["exprs"] for n in [e["n"]] if e["v"]["form"] == "bare" and n in req["ctx"]}
    ctx = dict(names)
    if names:
        ctx["unrelated"] = 5
    kw = {}
    if names or style["empty_ctx"]:
        kw["context"] = ctx
    before = entries_of(ps)
    frame = dict(calls=[])
    bench.stack.append(frame)
    name = ".".join(req["p"])
    as_map = (lambda d: d) if style["dict"] else immutabledict_of
    if req["acc"] == "object":
        if req["vname"] != "value" or style["explicit"]:
            kw["value_namespace_param_name"] = req["vname"]
        if req["fname"] != "factory" or style["explicit"]:
            kw["factory_namespace_param_name"] = req["fname"]
        if req["svals"] or style["explicit"]:
            kw["special_values"] = as_map({e["n"]: objects[e["v"]] for e in req["svals"]})
        if req["sfacts"] or style["explicit"]:
            kw["special_factories"] = as_map({e["n"]: objects[e["v"]] for e in req["sfacts"]})
        if req["dv"]:
            kw["default_value"] = objects[req["dv"]]
        if req["df"]:
            kw["default_factory"] = objects[req["df"]]
        r = w.call(lambda: ps.object_from_parameters(name, expected, **kw))
    else:
        if req["acc"] == "optional_evaluate":
            kw.pop("context", None)
        if req["vname"] != "value" or style["explicit"]:
            kw["namespace_param_name"] = req["vname"]
        if req["sexprs"] or style["explicit"]:
            kw["special_values"] = as_map({e["n"]: e["v"] for e in req["sexprs"]})
        if req["dv"]:
            kw["default"] = objects[req["dv"]]
        r = w.call(lambda: getattr(ps, req["acc"])(name, expected, **kw))
    bench.stack.pop()
    if r[0] != "ok":
        out = dict(k="err" if r[0] == "err" else "hang", id="", by="")
    elif r[1] is None and req["acc"] == "optional_evaluate" and name not in ps:
        out = dict(k="nothing", id="", by="")
    else:
        out = identify(objects, r[1])
    if names and (set(ctx) != set(names) | {"unrelated"} or any(ctx[k] is not names[k] for k in names)):
        w.mismatch("the context given was altered", req=req)
    rec = dict(tree=before, prefix=[k for k in ".".join(ps.namespace_prefix).split(".") if k], w=world, req=req, out=out, calls=frame["calls"], after=entries_of(ps))
    w.record(rec)
    return r, rec


def immutabledict_of(d):
    from immutablecollections import immutabledict
    return immutabledict(list(d.items()))


def pairs(d):
    return [dict(n=n, v=v) for n, v in d.items()]


def imports_of(value):
    """What a namespace's list of imports is, for a request."""
    if value is None:
        return "ok", []
    if not isinstance(value, list):
        return "bad", []
    return "ok", [m.split(".") for m in value]


def look(nested, p):
    for k in p:
        if not isinstance(nested, dict) or k not in nested:
            return None
        nested = nested[k]
    return nested


def objects_record(w):
    rnd = w.rnd
    bench = Bench(w)
    cases = list(w.input["cases"])
    n = 0
    todo = w.input["random"] + len(cases)
    while n < todo:
        expected = rnd.choice([Thing] * 14 + [object, object, list, str, int, type])
        share = dict(level=0)

        def ask_inner(params):
            """A factory which makes parts of what it makes from its own parameters."""
            if share["level"] > 2:
                return
            share["level"] += 1
            for part in rnd.sample(["left", "right", "o"], 2):
                one(params, [part], None, nested=params.as_nested_dicts())
            share["level"] -= 1

        world, objects, exprs, things = rand_world(bench, rnd, expected, ask_inner)
        texts = list(exprs) + ["sv", "sf", "sb", "SV", "sc"]

        def rand_text(kind):
            if rnd.random() < 0.2:
                return rnd.choice(texts)
            if kind == "value":
                return rnd.choice(["sv", "sc", "sf", "sf", "g", "gg", "vt7_m.g", "vt7_p.q.g", "vt7_p.g"])
            return rnd.choice(["f", "f", "c", "vt7_m.f", "vt7_p.q.f", "vt7_m.c", "vt7_p.q.c"])

        def rand_slot(kind):
            return rand_text(kind) if rnd.random() < 0.93 else rnd.choice([None, 5, ["g"], {"value": "g"}, True, 0])

        def rand_param(depth=2):
            z = rnd.random()
            if z < 0.35:
                return rand_slot("value")
            out = {}
            z = rnd.random()
            if z < 0.35:
                out[rnd.choice(["value"] * 9 + ["val"])] = rand_slot("value")
            elif z < 0.75:
                out[rnd.choice(["factory"] * 9 + ["impl"])] = rand_slot("factory")
            elif z < 0.82:
                out["value"], out["factory"] = rand_slot("value"), rand_slot("factory")
            if rnd.random() < 0.5:
                out["import"] = rnd.choice([["vt7_m"], ["vt7_p.q"], ["vt7_m", "vt7_p.q"], ["vt7_p.q", "vt7_m"], ["vt7_m", "vt7_p.q"], ["vt7_m"], [], ["vt7_p"], ["vt7_no"], "vt7_m", ["vt7_broken"], None, ["vt7_m", "vt7_p"]])
            for _ in range(rnd.choice([0, 0, 1, 2])):
                out[rnd.choice(["k", "left", "right", "other", "o"])] = rand_param(depth - 1) if depth and rnd.random() < 0.6 else rnd.choice([0, 1, "", "x", [1], False])
            return out

        def one(ps, p, case, nested):
            nonlocal n
            n += 1
            acc = rnd.choice(["object"] * 4 + ["evaluate", "evaluate", "optional_evaluate"])
            ctx = rnd.choice([[], ["g", "b", "f", "c", "w", "x", "gg"], ["g", "b", "f", "c", "w", "x", "gg"], ["g", "b", "f", "c", "w", "x", "gg"], ["g", "f"], ["f", "c", "x"]])
            im, mods = imports_of(look(nested, p + ["import"]) if isinstance(look(nested, p), dict) else None)
            req = dict(acc=acc, p=p, ctx=[] if acc == "optional_evaluate" else ctx, svals=[], sfacts=[], sexprs=[], dv="", df="",
                       vname=rnd.choice(["value"] * 9 + ["val"]), fname=rnd.choice(["factory"] * 9 + ["impl"]), imports=im, mods=mods)
            if acc == "object":
                if rnd.random() < 0.9:
                    # (values which could be called are values all the same)
                    req["svals"] = pairs({"sv": "good", "sb": "bad", "5": "other", "SV": "other", "sc": rnd.choice(["fn", "fp", "cls", "fail"])})
                if rnd.random() < 0.9:
                    req["sfacts"] = pairs({"sf": rnd.choice(["fp", "fn", "cls", "wrong"])})
                if rnd.random() < 0.3:
                    req["dv"] = rnd.choice(["good", "other", "bad", "fn", "cls"])
                if rnd.random() < 0.4:
                    req["df"] = rnd.choice(["dflt", "cls", "fp", "wrong", "fail", "bad"])
            else:
                if rnd.random() < 0.6:
                    req["sexprs"] = pairs({"sv": "g", "sf": "f", "sb": "1 +"})
                if acc == "evaluate" and rnd.random() < 0.4:
                    req["dv"] = rnd.choice(["good", "other"])
            if case:
                req = case
            w.doing((nested, req))
            style = dict(empty_ctx=rnd.random() < 0.2, dict=rnd.random() < 0.5, explicit=rnd.random() < 0.3)
            return perform(w, bench, ps, req, world, objects, expected, style)

        if cases and expected is Thing and [t for t in things if things[t]["good"] and not t.startswith("literal")] == ["good", "other"]:
            c = cases.pop()
            used = []
            nested = real(c["tree"])
            req = case_request(c["req"])
            if req["mods"]:
                nested["o"]["import"] = [".".join(m) for m in req["mods"]]
            r, rec = one(Parameters.from_mapping(nested), c["req"]["p"], req, nested)
            if c["want"] not in ("any", rec["out"]["k"]):
                w.mismatch("object from %s: specification says %s, code gives %s" % (nested, c["want"], rec["out"]), req=req)
                if w.full():
                    return
            continue
        path = rnd.choice([["o"], ["o"], ["n", "o"], ["n", "m", "o"], ["left"]])
        nested = {"left": rand_param(), "n": {"o": rand_param(), "m": {"o": rand_param()}}, "q": 1}
        if rnd.random() < 0.85:
            nested["o"] = rand_param()
        if rnd.random() < 0.15:
            del look(nested, path[:-1])["o" if path[-1] == "o" and "o" in look(nested, path[:-1]) else "q" if "q" in look(nested, path[:-1]) else list(look(nested, path[:-1]))[0]]
        ps = Parameters.from_mapping(nested, **({} if rnd.random() < 0.8 else dict(namespace_prefix=["pre", "fix"])))
        if len(path) > 1 and rnd.random() < 0.5 and ps.has_namespace(path[0]):
            ps, nested, path = ps.namespace(path[0]), nested[path[0]], path[1:]
        for _ in range(rnd.choice([1, 1, 2, 3])):
            one(ps, path, None, nested)


RENAME = {"m.g": "vt7_m.g", "m.f": "vt7_m.f", "p.q.f": "vt7_p.q.f", "no.g": "vt7_no.g"}


def real(es):
    out = {}
    for e in sorted(es, key=lambda e: len(e["p"])):
        d = out
        for k in e["p"][:-1]:
            d = d[k]
        d[e["p"][-1]] = {} if e["t"] == "ns" else None if e["t"] == "null" else 5 if e["t"] == "int" else RENAME.get(e["v"], e["v"])
    return out


def case_request(r):
    r = dict(r)
    r["svals"] = pairs(dict(r["svals"]) if r["svals"] else {})
    r["sfacts"] = pairs(dict(r["sfacts"]) if r["sfacts"] else {})
    r["sexprs"] = pairs(dict(r["sexprs"]) if r["sexprs"] else {})
    if r["acc"] == "optional_evaluate":
        r["ctx"] = []
    r["mods"] = [["vt7_" + m[0]] + m[1:] for m in r["mods"]]
    return r
