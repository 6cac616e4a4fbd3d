"""Drivers for directory-backed stores, doc-id-to-file maps and path-mapped sources."""
import os
import shutil
from pathlib import Path

from immutablecollections import immutabledict

from d_stores import comes_out, interleaved, own_error

from vistautils.io_utils import CharSource
from vistautils.key_value import (KeyValueSource, byte_key_value_linear_source_from_params,
                                  byte_key_value_sink_from_params, byte_key_value_source_from_params,
                                  char_key_value_linear_source_from_params, char_key_value_sink_from_params,
                                  char_key_value_source_from_params)
from vistautils.parameters import Parameters

KEYS = ["a", "b.txt", "A", "\u00e9\u4e2d\U0001f600", "x y", "sub/k1", "sub/k2", "0", "%s", "a.b.c", "_indexx",
        "deep/er/k", "x\u2028y", "k" * 100, "-n", "~", "#c", "key=value", "{}", "\\n", "'q\"", "None", "\ufeff", "\ufeffa"]
CHARS = ["v1", "", "line\n", "\u00e9\u4e2d\U0001f600", "\ufeffbom", "nul\0nul", "x" * 70000,
         "tab\t \u2028\u2029\x85\x0b\x0c", "trailing \n\n", "%s {}", "0", "\n\n\n", "\u00e9" * 600000]
BYTES = [b"v1", b"", bytes(range(256)), b"\xff\xfe", b"\r\n\r", b"x" * 70000, b"\xed\xa0\x80", b"nul\0", b"0",
         bytes(range(255, -1, -1)) * 300, "\u00e9".encode(), b"\n",
         bytes(range(256)) * 4500]


class Boom(Exception):
    pass


# keys that something careless could take for one another
ALIKE = [["k1", "sub/k1", "deep/k1"], ["a", "A", "d/a"], ["a", "a.txt", "a.txt.bak"], ["a.txt", "a.tmp", "a.txt.tmp"], ["a", "a~", ".a"], ["a.txt", ".a.txt.tmp", "_index.tmp"], ["_index~", "._index", "_index.bak"], ["x y", "x_y", "x%20y"],
         ["s/t", "s_t", "s-t"], ["\u00e9", "e\u0301", "e"], ["1", "01", "1.0"], ["p/q/r", "p/r", "q/r"], ["index", "_indexx", "s/_index"],
         ["x\u2028y", "x", "y"], ["ab", "a/b", "b/a"], ["k" * 200 + "1", "k" * 200 + "2", "k" * 200], ["\u212b", "\u00c5", "A\u030a"],
         ["\ufb01", "fi", "FI"], ["stra\u00dfe", "strasse", "STRASSE"], ["..x", "dot..x", "x"], ["...", "....", "..x"], [".hidden", "hidden", "_hidden"],
         ["\u0430", "a", "\u00e4"], ["k" * 255, "k" * 254, "k" * 254 + "j"], ["l/" * 30 + "x", "l/" * 29 + "x", "l/" * 31 + "x"]]


def pick_keys(rnd, n):
    ks = KEYS[:]
    rnd.shuffle(ks)
    if rnd.random() < 0.4:
        first = list(rnd.choice(ALIKE))
        rnd.shuffle(first)
        ks = first[:n] + [k for k in ks if k not in first and not any(f.startswith(k + "/") or k.startswith(f + "/") for f in first)]
    return [None] + ks[:n]


class DirAdapter:
    def __init__(self, w, path, rnd, keys):
        self.w, self.path, self.rnd, self.keys = w, path, rnd, keys
        self.bytes = rnd.random() < 0.5
        self.vals = [None] + list(BYTES if self.bytes else CHARS)
        self.how = rnd.choice(["directory", "file-map", None])
        self.rel = rnd.random() < 0.3
        self.sink = None
        if path.exists():
            shutil.rmtree(str(path))
        path.mkdir(parents=True)

    def describe(self):
        return dict(bytes=self.bytes, type=self.how or "", rel=self.rel)

    def make_sink(self):
        ns = {"path": str(self.path)}
        if self.rel:
            ns["path"] = os.path.relpath(str(self.path))
        if self.how:
            ns["type"] = self.how
        p = Parameters.from_mapping({"output": ns})
        return (byte_key_value_sink_from_params if self.bytes else char_key_value_sink_from_params)(p)

    def sources(self):
        """The ways to read the directory back."""
        idx = self.path / "_index"
        r = self.rnd
        out = []
        f = KeyValueSource.binary_from_doc_id_to_file_map if self.bytes else KeyValueSource.from_doc_id_to_file_map
        out.append(lambda: f(r.choice([str(idx), idx, CharSource.from_file(idx)])))
        fs = (byte_key_value_source_from_params, byte_key_value_linear_source_from_params) if self.bytes else \
            (char_key_value_source_from_params, char_key_value_linear_source_from_params)
        ns = {"path": str(idx)}
        if r.random() < 0.5:
            ns["type"] = "file-map"
        p = Parameters.from_mapping({"input": ns})
        g = r.choice(fs)
        out.append(lambda: g(p))
        return out

    def do(self, op, a=0, v=0, reuse=True):
        w = self.w
        if op == "open":
            def go():
                if self.sink is None or not reuse:
                    self.sink = self.make_sink()
                self.opened = self.sink.__enter__()
                self.opened.put
            return w.call(go)
        if op == "put":
            if self.rnd.random() < 0.3:
                return w.call(self.opened.__setitem__, self.keys[a], self.vals[v])
            return w.call(self.opened.put, self.keys[a], self.vals[v])
        if op == "fail":
            bad = self.rnd.choice([3, None, object(), ["x"]] + ([] if self.bytes else [b"x", "a\ud800"]) +
                                  (["x"] if self.bytes else []))
            return w.call(self.opened.put, self.keys[a], bad)
        if op == "close":
            return w.call(self.opened.__exit__, None, None, None)
        if op == "abort":
            t = own_error(self.rnd)
            out = w.call(self.opened.__exit__, t, Boom("x") if t is UnicodeDecodeError else t("x"), None)
            if out[0] == "ok" and out[1]:
                return ("err", "swallowed", None)
            return out
        p = self.path / self.keys[a] if a else None
        if op == "edit":
            d = self.vals[v]
            p.parent.mkdir(parents=True, exist_ok=True)
            return w.call(p.write_bytes, d if self.bytes else d.encode("utf-8"))
        if op == "remove":
            return w.call(p.unlink, missing_ok=True)
        if op == "wipe":
            def go():
                shutil.rmtree(str(self.path))
                self.path.mkdir()
            return w.call(go)
        raise AssertionError(op)

    def vid(self, x):
        for i, t in enumerate(self.vals):
            if i and type(t) is type(x) and t == x:
                return i
        return -77

    def kid(self, k):
        return self.keys.index(k) if k in self.keys[1:] else -77

    def lookup(self, s, k):
        absent = object()
        try:
            a = s.get(k)
            b = s.get(k, absent)
            c = s[k]
        except KeyError:
            return 0 if a is None and b is absent else -60
        except OSError:
            for f in (lambda: s.get(k), lambda: s.get(k, absent), lambda: s[k]):
                try:
                    f()
                    return -61
                except OSError:
                    pass
            return -2
        if a is None or b is absent or not (a == b == c):
            return -62
        return self.vid(a)

    def observe(self):
        """What a reader sees, who may work in another directory."""
        if self.rnd.random() < 0.5:
            return self.observe_here()
        here = os.getcwd()
        os.chdir("/" if self.rnd.random() < 0.5 else str(self.path.parent))
        try:
            return self.observe_here()
        finally:
            os.chdir(here)

    def observe_here(self):
        n = len(self.keys) - 1
        disk = []
        for root, _, fs in os.walk(str(self.path)):
            for f in fs:
                rel = os.path.relpath(os.path.join(root, f), str(self.path))
                if rel != "_index":
                    disk.append(self.kid(rel))
        o = dict(has=(self.path / "_index").exists(), disk=sorted(disk), keys=[], get=[0] * n, items=[])
        if not o["has"]:
            return o
        first = None
        srcs = self.sources()
        pm = None
        for mk in srcs + [lambda: pm]:
            src = mk()
            if src is None:
                continue
            with src as s:
                ks = list(s.keys())
                cur = dict(keys=sorted(self.kid(k) for k in ks), get=[self.lookup(s, self.keys[i]) for i in range(1, n + 1)])
                try:
                    cur["items"] = [x for t in sorted((self.kid(k), self.vid(v)) for k, v in s.items()) for x in t]
                    if self.rnd.random() < 0.3 and hasattr(s, "get") and interleaved(s, self.rnd, list(ks) or [""]) != list(s.items()):
                        cur["items"] = [-51]
                except OSError:
                    cur["items"] = [-2]
                if self.rnd.random() < 0.2 and not comes_out(self.rnd, src):
                    cur["items"] = [-82]    # an error in the reader's own code was swallowed
                if first is None:
                    first = cur
                    m = [(k, self.path / k) for k in ks]
                    mk_pm = KeyValueSource.from_path_mapping
                    if not self.bytes:
                        pm = mk_pm(immutabledict(m) if self.rnd.random() < 0.5 else m)
                elif cur != first:
                    first = dict(first, keys=[-55], disagreement=[first, cur])
                    break
        o.update(first)
        return o


def compare(o, ob):
    # a file left by a failed put may or may not be there
    if ob["has"] != o["has"] or not set(o["onDisk"]) - set(o["unsure"]) <= set(ob["disk"]) <= set(o["onDisk"]):
        return False
    if not o["has"]:
        return True
    if ob["keys"] != sorted(o["keys"]):
        return False
    for s, g in zip(o["seen"], ob["get"]):
        if (s == -1 and g == 0) or (s != -1 and s != g):
            return False
    if all(o["seen"][k - 1] > 0 for k in o["keys"]):
        return ob["items"] == [x for k in sorted(o["keys"]) for x in (k, o["seen"][k - 1])]
    return True


def dir_replay(w):
    base = w.scratch("dirs")
    for n, h in enumerate(w.input["histories"]):
        keys = pick_keys(w.rnd, w.input["nkeys"])
        ad = DirAdapter(w, Path(base, "d%d" % (n % 40)), w.rnd, keys)
        trail, opened = [], False
        for st in h["h"]:
            trail.append([st["op"], st["a"], st["v"]])
            w.doing("dir history %s" % trail)
            out = ad.do(st["op"], st["a"], st["v"], reuse=n % 2 == 0)
            o = st["o"]
            if (out[0] == "ok") != (o["res"] == "ok"):
                w.mismatch("directory store history %s (keys %r, %s): specification says %s, code gives %s" % (
                    trail, keys[1:], ad.describe(), o["res"], out[:2]), history=trail)
                break
            if st["op"] == "open" and out[0] == "ok":
                opened = True
            elif st["op"] in ("close", "abort"):
                opened = False
            if not opened:
                ob = w.call(ad.observe)
                if ob[0] != "ok" or not compare(o, ob[1]):
                    w.mismatch("directory store history %s (keys %r, %s): specification says %s, reader sees %s" % (
                        trail, keys[1:], ad.describe(), o, ob[1:]), history=trail)
                    break
        if w.full():
            return


def dir_record(w):
    base = w.scratch("dirs")
    rnd, nk = w.rnd, w.input["nkeys"]
    for n in range(w.input["histories"]):
        keys = pick_keys(rnd, nk)
        ad = DirAdapter(w, Path(base, "r%d" % (n % 20)), rnd, keys)
        w.record(dict(op="new", flavour=ad.describe(), keynames=keys[1:]))
        opened = False
        files, listed, known, has = set(), set(), set(), False
        for _ in range(rnd.choice([6, 12, 20])):
            rec = dict(a=0, v=0, res="ok", seen=0, has=False, disk=[], keys=[], get=[], items=[])
            k = rnd.random()
            v = rnd.randint(1, len(ad.vals) - 1)
            if opened:
                if k < 0.7:
                    rec.update(op="put", a=rnd.randint(1, nk), v=v)
                elif k < 0.78:
                    rec.update(op="fail", a=rnd.randint(1, nk))
                else:
                    rec.update(op="close" if k < 0.93 else "abort")
            elif k < 0.5 or not has:
                rec.update(op="wipe" if (files and rnd.random() < 0.5) else "open")
            elif k < 0.75 and listed:
                rec.update(op="edit", a=rnd.choice(sorted(listed)), v=v)
            elif k < 0.9 and files:
                rec.update(op="remove", a=rnd.choice(sorted(files)))
            else:
                rec.update(op="wipe")
            w.doing("dir record %s" % rec)
            out = ad.do(rec["op"], rec["a"], rec["v"], reuse=rnd.random() < 0.6)
            rec["res"] = "ok" if out[0] == "ok" else "err"
            rec["how"] = "" if out[0] == "ok" else str(out[1])
            op = rec["op"]
            if op == "open" and out[0] == "ok":
                opened, known = True, set()
            elif op in ("close", "abort"):
                opened, listed, has = False, set(known), True
            elif op in ("put", "edit", "fail"):
                files.add(rec["a"])
                if op == "put":
                    known.add(rec["a"])
            elif op == "remove":
                files.discard(rec["a"])
            elif op == "wipe":
                files, listed, has = set(), set(), False
            if not opened:
                ob = w.call(ad.observe)
                rec["seen"] = 1
                if ob[0] == "ok":
                    rec.update(ob[1])
                else:
                    rec.update(has=True, keys=[-66], how="reading: %s %s" % (ob[1], ob[2]))
            w.record(rec)
