"""Drivers for key-value stores (run by worker.py on the real code)."""
import hashlib
import json
import os
import warnings
import zipfile
from pathlib import Path

from vistautils.key_value import (KeyValueSink, KeyValueSource, byte_key_value_sink_from_params,
                                  byte_key_value_source_from_params, char_key_value_sink_from_params,
                                  char_key_value_source_from_params)
from vistautils.parameters import Parameters

warnings.simplefilter("ignore")

KEYS = ["a", "b", "dir/sub.txt", "A", " a", "a ", "\u00e9\u4e2d\U0001f600", "x\u2028y", "c\rd", "k\x85z",
        "t\tab", "__keys2", "a" * 180, "..", "0", "keys", "%s", "a.b", "f\x0cg", "v\x0bw", "s\x1cs", "\ufeff", "\ufeffa"]
# keys that something careless could take for one another
ALIKE = [["\u00e9", "e\u0301", "e"], ["\u212b", "\u00c5", "A\u030a"], ["\ufb01", "fi", "FI"], ["stra\u00dfe", "strasse", "STRASSE"], ["..x", "dot..x", "x"],
         ["k" * 300 + "1", "k" * 300 + "2", "k" * 300], ["a", "A", "\u0430"], ["a/b", "a\\b", "a//b"], ["a/b", "a/./b", "b"], ["x", "./x", "/x"], ["a", "a/", "a//"],
         ["1", "01", "1.0"], ["a b", "a%20b", "a+b"], ["l/" * 30 + "x", "l/" * 29 + "x", "l/" * 31 + "x"], ["\u00b5", "\u03bc", "u"], ["k" * 4000, "k" * 3999, "k" * 3999 + "j"]]
CHARS = ["v1", "", "line\n", "\r\n\r\r\n", "\u00e9\u4e2d\U0001f600", "\ufeffbom", "nul\0nul", "x" * 70000,
         "tab\t \u2028\u2029\x85\x0b\x0c", "trailing \n\n", "%s {}", "0", "\u00e9" * 600000]
BYTES = [b"v1", b"", bytes(range(256)), b"\xff\xfe", b"\r\n\r", b"x" * 70000, b"\xed\xa0\x80", b"nul\0", b"0",
         bytes(range(255, -1, -1)) * 300, "\u00e9".encode(), b"\n",
         bytes(range(256)) * 4500]


def fn_prefix(k):
    return "data/" + k + ".bin"


def fn_md5(k):
    return hashlib.md5(k.encode("utf-8")).hexdigest()


def fn_rev(k):
    return k[::-1] + "#"


FNS = [None, fn_prefix, fn_md5, fn_rev]


def fds():
    return len(os.listdir("/proc/self/fd"))


class Own(Exception):
    pass


def own_error(rnd):
    """An error of the user's own code; libraries tend to catch some kinds for reasons of their own."""
    return rnd.choice([KeyError, KeyError, ValueError, RuntimeError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, OSError,
                       FileNotFoundError, EOFError, zipfile.BadZipFile, UnicodeDecodeError, AttributeError, NotImplementedError, Own, Own])


def comes_out(rnd, cm):
    """Does an error inside a with block come out of it?"""
    t = own_error(rnd)
    e = t("utf-8", b"", 0, 1, "mine") if t is UnicodeDecodeError else t("mine")
    try:
        with cm:
            raise e
    except BaseException as x:
        return x is e
    return False


def interleaved(s, rnd, keys):
    """The items from two iterations under way at the same time, with look-ups in between: the same, or None."""
    its, got, live = [s.items(), s.items()], [[], []], [0, 1]
    while live:
        i = rnd.choice(live)
        try:
            got[i].append(next(its[i]))
        except StopIteration:
            live.remove(i)
        if rnd.random() < 0.3:
            s.get(rnd.choice(keys))
    return got[0] if got[0] == got[1] else None


class Neighbours:
    """Files beside an archive, with names somebody might make up for files of one's own; nothing happens to them."""
    SUFFIXES = [".tmp", "~", ".bak", ".new", ".old", ".part", ".lock", ".zip", ".keys", "__keys", ".1"]

    def __init__(self, path, rnd):
        self.path, self.files = path, {}
        d = path.parent
        for f in d.iterdir():
            if f.is_file():
                f.unlink()
        names = [path.name + x for x in self.SUFFIXES] + ["." + path.name, "tmp", path.stem, path.stem + ".tmp", "_" + path.name, "__keys", path.stem + ".bak"]
        for n in rnd.sample(names, rnd.choice([0, 3, len(names)])):
            self.files[n] = b"neighbour " + n.encode()
            (d / n).write_bytes(self.files[n])

    def fine(self):
        return {f.name: f.read_bytes() for f in self.path.parent.iterdir() if f != self.path} == self.files


class Boom(Exception):
    pass


def keys_in_json(z):
    try:
        return frozenset(json.loads(z.read("meta/index.json").decode("ascii")))
    except KeyError:
        return None


def keys_out_json(z, keys):
    z.writestr("meta/index.json", json.dumps(sorted(keys)))


class ZipAdapter:
    def __init__(self, w, path, rnd, keys, flavour=None):
        f = flavour or {}
        self.w, self.path, self.rnd = w, path, rnd
        self.neighbours = Neighbours(path, rnd)
        self.bytes = f.get("bytes", rnd.random() < 0.5)
        self.fn = FNS[f.get("fn", rnd.randint(0, len(FNS) - 1))]
        self.custom = f.get("custom", rnd.random() < 0.2)
        self.params = f.get("params", False)
        self.keys = keys
        self.vals = [None] + list(BYTES if self.bytes else CHARS)
        self.sinks = {}
        self.sink = None
        self.opened = None
        self.source = None
        self.trip = [False]

    def describe(self):
        return dict(bytes=self.bytes, fn=self.fn.__name__ if self.fn else "identity", custom=self.custom)

    def filename(self, k):
        # the filename function of the sink: may be told to fail
        if self.trip[0]:
            raise Boom("filename function")
        return self.fn(k) if self.fn else k

    def plain(self, k):
        return self.fn(k) if self.fn else k

    def make_sink(self, overwrite):
        if self.params and overwrite and not self.fn and not self.custom:
            p = Parameters.from_mapping({"output": {"type": "zip", "path": str(self.path)}})
            return (byte_key_value_sink_from_params if self.bytes else char_key_value_sink_from_params)(p)
        kw = dict(overwrite=overwrite)
        if self.fn or self.rnd.random() < 0.7:
            kw["filename_function"] = self.filename
        if self.custom:
            kw["keys_in_function"] = keys_in_json
            kw["keys_out_function"] = keys_out_json
        return (KeyValueSink.zip_bytes_sink if self.bytes else KeyValueSink.zip_character_sink)(self.path, **kw)

    def make_source(self):
        if self.params and not self.fn and not self.custom and self.rnd.random() < 0.5:
            p = Parameters.from_mapping({"input": {"type": "zip", "path": str(self.path)}})
            return (byte_key_value_source_from_params if self.bytes else char_key_value_source_from_params)(p)
        kw = {}
        if self.fn:
            kw["filename_function"] = self.plain
        if self.custom:
            kw["keys_function"] = keys_in_json
        return (KeyValueSource.zip_bytes_source if self.bytes else KeyValueSource.zip_character_source)(self.path, **kw)

    def do(self, op, a=0, v=0, reuse=True, kind=None, ks=(), vs=()):
        w = self.w
        if op in ("open_ow", "open_app"):
            ow = op == "open_ow"

            def go():
                if not reuse or ow not in self.sinks:
                    self.sinks[ow] = self.make_sink(ow)
                self.sink = self.sinks[ow]
                self.before = fds()
                self.opened = self.sink.__enter__()
                assert hasattr(self.opened, "put")
            return w.call(go)
        if op == "put":
            target = self.opened or self.sink or self.make_sink(False)

            def go():
                if self.rnd.random() < 0.3:
                    target[self.keys[a]] = self.vals[v]
                else:
                    target.put(self.keys[a], self.vals[v])
            return w.call(go)
        if op == "fail":
            target = self.opened or self.sink or self.make_sink(False)
            key, val = self.keys[a], self.vals[v]
            kind = kind or self.rnd.choice(["type", "none", "nokey", "enc"] + (["fn"] if self.fn else []))
            if kind == "type":
                val = self.rnd.choice([3, 1.5, ["x"], object(), {"a": 1}])
            elif kind == "none":
                val = None
            elif kind == "nokey":
                key = None
            elif kind == "fn":
                self.trip[0] = True
            elif kind == "enc":
                val = "\ud800"
            try:
                out = w.call(target.put, key, val)
            finally:
                self.trip[0] = False
            return out
        if op == "close":
            s = self.opened
            self.opened = None
            out = w.call(s.__exit__, None, None, None)
            return ("err", "left the archive open", None) if fds() > self.before else out
        if op == "abort":
            s = self.opened
            self.opened = None
            t = own_error(self.rnd)
            e = t("utf-8", b"", 0, 1, "mine") if t is UnicodeDecodeError else t("mine")
            out = w.call(s.__exit__, t, e, None)
            if fds() > self.before:
                return ("err", "left the archive open", None)
            if out[0] == "ok" and out[1]:
                return ("err", "swallowed the exception", None)
            return out
        if op == "foreign":
            def go():
                with zipfile.ZipFile(str(self.path), "w") as z:
                    for k, x in zip(ks, vs):
                        z.writestr(self.plain(self.keys[k]), self.vals[x])
            return w.call(go)
        raise AssertionError(op)

    def vid(self, x):
        for i, t in enumerate(self.vals):
            if i and type(t) is type(x) and t == x:
                return i
        return -77

    def observe(self):
        """What a source opened on the archive shows."""
        if not os.path.exists(self.path):
            if not self.neighbours.fine():
                raise AssertionError("something beside the archive has changed")
            return dict(exists=False, haslist=False, keys=[], get=[], items=[], odd=[])
        n = len(self.keys) - 1
        if self.source is None or self.rnd.random() < 0.5:
            self.source = self.make_source()
        src = self.source
        absent = object()
        before = fds()
        # perhaps another source of the archive is open at the same time, and left in between
        early = self.make_source().__enter__() if self.rnd.random() < 0.2 else None
        with src as s:
            o = dict(exists=True)
            if early is not None:
                early.get(self.keys[1])
                early.__exit__(None, None, None)
            ks = s.keys()
            if self.rnd.random() < 0.2:
                with self.make_source() as other:
                    other.get(self.keys[1])
                    if (other.keys() is None) != (ks is None):
                        raise AssertionError("two sources of one archive differ")
            o["haslist"] = ks is not None
            o["keys"] = sorted(self.kid(k) for k in ks) if ks is not None else []
            if ks is not None and len(o["keys"]) != len(set(o["keys"])):
                o["keys"].append(-70)
            got = []
            for i in range(1, n + 1):
                k = self.keys[i]
                a = s.get(k)
                b = s.get(k, absent)
                try:
                    c = s[k]
                except KeyError:
                    c = absent
                if a is None and b is absent and c is absent:
                    got.append(0)
                elif a is None or b is absent or c is absent or not (a == b == c):
                    got.append(-60)
                else:
                    got.append(self.vid(a))
            o["get"] = got
            if ks is not None:
                o["items"] = [x for t in sorted((self.kid(k), self.vid(v)) for k, v in s.items()) for x in t]
                o["odd"] = [x for t in sorted((self.kid(k), self.vid(v)) for k, v in
                                              s.items(lambda k: self.kid(k) % 2 == 1)) for x in t]
            else:
                o["items"], o["odd"] = [], []
                try:
                    list(s.items())
                    o["items"] = [-50]
                except NotImplementedError:
                    pass
            if ks is not None and self.rnd.random() < 0.3 and interleaved(s, self.rnd, self.keys[1:]) != list(s.items()):
                o["items"] = [-51]
        if self.rnd.random() < 0.3 and not comes_out(self.rnd, src):
            o["odd"] = [-82]    # an error in the reader's own code was swallowed
        if not self.neighbours.fine():
            o["odd"] = [-81]    # something beside the archive has changed
        if fds() > before:
            o["odd"] = [-80]    # the source has been left, and still holds the archive
        return o

    def kid(self, k):
        try:
            return self.keys.index(k, 1)
        except ValueError:
            return -77


def pick_keys(rnd, n):
    ks = KEYS[:]
    rnd.shuffle(ks)
    if rnd.random() < 0.3:
        first = list(rnd.choice(ALIKE))
        rnd.shuffle(first)
        ks = first[:n] + [k for k in ks if k not in first]
    return [None] + ks[:n]


def zip_replay(w):
    base = w.scratch("zips")
    rnd = w.rnd
    for n, h in enumerate(w.input["histories"]):
        steps = h["h"]
        p = Path(base, "s%d" % (n % 50), "s.zip")
        p.parent.mkdir(exist_ok=True)
        if p.exists():
            p.unlink()
        ad = ZipAdapter(w, p, rnd, pick_keys(rnd, w.input["nkeys"]), dict(params=n % 5 == 0))
        trail = []
        reuse = n % 2 == 0
        opened = False
        for st in steps:
            trail.append([st["op"], st["a"], st["v"]])
            w.doing("zip history %s %s" % (trail, ad.describe()))
            out = ad.do(st["op"], st["a"], st["v"], reuse=reuse)
            o = st["o"]
            want = o["res"] == "ok"
            if (out[0] == "ok") != want:
                w.mismatch("zip store history %s (keys %r, %s): specification says %s, code gives %s" % (
                    trail, ad.keys[1:], ad.describe(), o["res"], out[:2]), history=trail, keys=ad.keys)
                break
            if st["op"].startswith("open"):
                opened = True
            elif st["op"] in ("close", "abort"):
                opened = False
            if not opened:
                ob = w.call(ad.observe)
                if ob[0] != "ok":
                    w.mismatch("zip store history %s (%s): reading back failed with %s %s" % (
                        trail, ad.describe(), ob[1], ob[2]), history=trail, keys=ad.keys)
                    break
                ob = ob[1]
                ok = ob["exists"] == (o["st"] == "zip")
                if ok and ob["exists"]:
                    ok = ob["haslist"] == o["k"] and ob["keys"] == sorted(o["keys"]) and ob["get"] == o["ent"] and \
                        ob["items"] == [x for k in sorted(o["keys"]) for x in (k, o["ent"][k - 1])] and \
                        ob["odd"] == [x for k in sorted(o["keys"]) if k % 2 for x in (k, o["ent"][k - 1])]
                if not ok:
                    w.mismatch("zip store history %s (keys %r, %s): specification says %s, reader sees %s" % (
                        trail, ad.keys[1:], ad.describe(), o, ob), history=trail, keys=ad.keys, expected=o, got=ob)
                    break
        if opened and ad.opened is not None:
            w.call(ad.opened.__exit__, None, None, None)
        if w.full():
            return


def zip_crowded(w):
    """Exported histories with a great many keys standing for each key: what holds does not depend on how many there are."""
    rnd = w.rnd
    base = w.scratch("crowded")
    each = w.input["each"]
    for n, h in enumerate(w.input["histories"]):
        p = Path(base, "c%d.zip" % n)
        nbytes = rnd.random() < 0.5
        vals = [None] + list(BYTES if nbytes else CHARS)
        trail, sink = [], None
        for st in h["h"]:
            trail.append([st["op"], st["a"], st["v"]])
            w.doing("crowded zip history %s" % trail)
            a, o = st["a"], st["o"]

            def go():
                nonlocal sink
                if st["op"] in ("open_ow", "open_app"):
                    make = KeyValueSink.zip_bytes_sink if nbytes else KeyValueSink.zip_character_sink
                    sink = make(p, overwrite=st["op"] == "open_ow").__enter__()
                elif st["op"] == "put":
                    for i in range(each):
                        sink.put("%d/%d" % (a, i), vals[st["v"]])
                else:
                    sink.__exit__(None, None, None)
            r = w.call(go)
            if r[0] != "ok":
                w.mismatch("zip history %s with %d keys for each: specification says ok, code gives %s" % (trail, each, r[1:]), history=trail, each=each)
                break
            if st["op"] != "close":
                continue

            def look():
                with (KeyValueSource.zip_bytes_source if nbytes else KeyValueSource.zip_character_source)(p) as s:
                    ks = list(s.keys())
                    bad = len(ks) != len(set(ks)) or set(ks) != {"%d/%d" % (k, i) for k in o["keys"] for i in range(each)}
                    if bad:
                        return "keys"
                    for k, v in enumerate(o["ent"], 1):
                        for i in (0, each - 1, rnd.randrange(each)):
                            if s.get("%d/%d" % (k, i)) != vals[v]:
                                return "value of %d/%d" % (k, i)
                return None
            r = w.call(look)
            if r[0] != "ok" or r[1]:
                w.mismatch("zip history %s with %d keys for each: the code shows something else (%s)" % (trail, each, r[1:]), history=trail, each=each)
                break
        if p.exists():
            p.unlink()
        if w.full():
            return


def zip_record(w):
    base = w.scratch("zips")
    rnd = w.rnd
    nk = w.input["nkeys"]
    for n in range(w.input["histories"]):
        p = Path(base, "r%d" % (n % 20), "r.zip")
        p.parent.mkdir(exist_ok=True)
        if p.exists():
            p.unlink()
        ad = ZipAdapter(w, p, rnd, pick_keys(rnd, nk), dict(params=rnd.random() < 0.2))
        w.record(dict(op="new", flavour=ad.describe(), keynames=[k for k in ad.keys[1:]]))
        opened = False
        focus = [rnd.randint(1, nk) for _ in range(rnd.choice([2, 3, nk]))]
        for _ in range(rnd.choice([6, 12, 25])):
            rec = dict(a=0, v=0, res="ok", seen=0, exists=False, haslist=False, keys=[], get=[], items=[], odd=[],
                       ks=[], vs=[])
            k = rnd.random()
            if opened:
                if k < 0.62:
                    rec.update(op="put", a=rnd.choice(focus), v=rnd.randint(1, len(ad.vals) - 1))
                elif k < 0.75:
                    rec.update(op="fail", a=rnd.choice(focus), v=1)
                elif k < 0.93:
                    rec.update(op="close")
                else:
                    rec.update(op="abort")
            else:
                if k < 0.6:
                    rec.update(op="open_app")
                elif k < 0.85:
                    rec.update(op="open_ow")
                elif k < 0.92:
                    rec.update(op="put", a=rnd.choice(focus), v=1)
                else:
                    ks = rnd.sample(range(1, nk + 1), rnd.randint(0, 3))
                    rec.update(op="foreign", ks=ks, vs=[rnd.randint(1, len(ad.vals) - 1) for _ in ks])
            kind = rnd.choice(["type", "none", "nokey", "enc"] + (["fn"] if ad.fn else [])) if rec["op"] == "fail" else None
            rec["kind"] = kind or ""
            w.doing("zip record %s %s" % (rec, ad.describe()))
            out = ad.do(rec["op"], rec["a"], rec["v"], reuse=rnd.random() < 0.6, kind=kind, ks=rec["ks"], vs=rec["vs"])
            rec["res"] = "ok" if out[0] == "ok" else "err"
            rec["how"] = "" if out[0] == "ok" else str(out[1])
            if rec["op"].startswith("open"):
                opened = True
            elif rec["op"] in ("close", "abort"):
                opened = False
            if not opened:
                ob = w.call(ad.observe)
                rec["seen"] = 1
                if ob[0] == "ok":
                    rec.update(ob[1])
                else:
                    rec.update(exists=True, haslist=True, keys=[-66], how="reading: %s" % ob[1])
            w.record(rec)
            if rec["op"].startswith("open") and out[0] != "ok":
                break
        if opened and ad.opened is not None:
            w.call(ad.opened.__exit__, None, None, None)
