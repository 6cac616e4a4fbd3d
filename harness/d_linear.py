"""Drivers for linear (tar) and interpreted sources."""
import io
import itertools
import os
import tarfile
from pathlib import Path

from immutablecollections import immutableset

from d_stores import comes_out, interleaved

from vistautils.key_value import KeyValueLinearSource, KeyValueSink, KeyValueSource, TarGzipBytesLinearKeyValueSource

CONTENTS = [b"v1", b"", bytes(range(256)), b"x" * 70000, b"\r\n\r", b"\xff", "\u00e9\u4e2d".encode("utf-8"), b"nul\0",
            b"y" * 511, b"z" * 512, b"z" * 513, b"0", b"0123456789abcde" * 75000]
UTF = [b"v1", b"", "\u00e9\u4e2d\U0001f600".encode("utf-8"), b"x" * 70000, b"\r\n\r", b"nul\0", b"\xef\xbb\xbfbom", b"y" * 512,
       b"z" * 513, b"0", b"line\n", b"0123456789abcde" * 75000]
NAMES = ["a", "dir/b.txt", "./c", "\u00e9.txt", "x" * 120, "s p", "d/e/f/g", "0", "%s", "k" * 300 + ".txt", "Z", "b"]
KEYNAMES = ["a", "B", "\u00e9", "k/1", "0", "x" * 50, " ", "None"]


def build(path, members, names, contents, rnd, mode):
    with tarfile.open(str(path), mode, format=rnd.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as t:
        for kind, n, c in members:
            i = tarfile.TarInfo(names[n])
            if kind == 1:
                i.size = len(contents[c])
                i.type = rnd.choice([tarfile.REGTYPE, tarfile.AREGTYPE]) if not names[n].endswith("/") else tarfile.REGTYPE
                t.addfile(i, io.BytesIO(contents[c]))
            else:
                i.type = {2: tarfile.DIRTYPE, 3: tarfile.SYMTYPE, 4: tarfile.FIFOTYPE, 5: tarfile.LNKTYPE}[kind]
                i.linkname = names[1]
                t.addfile(i)


def drop_nones(it):
    return [x for x in it]


class Own(Exception):
    pass


def own_error(rnd):
    """An error of the user's own function; libraries tend to catch some of these for reasons of their own."""
    return rnd.choice([KeyError, KeyError, KeyError, ValueError, IndexError, LookupError, AttributeError, TypeError, OSError, FileNotFoundError,
                       EOFError, tarfile.TarError, tarfile.ReadError, AssertionError, RuntimeError, NotImplementedError, Own])("mine")


def interpreted(n):
    """What functions make of values, numbered: objects, long texts and bytes."""
    if n % 3 == 0:
        return ("I", n)
    t = " I%d \u00c9e\u0301\ufeff\t" % n + "xY" * 40 + "\n"
    return t if n % 3 == 1 else t.encode("utf-8")


def interpreted_id(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "I":
        return x[1]
    t = x.decode("utf-8", "replace") if isinstance(x, bytes) else x if isinstance(x, str) else ""
    if t[:2] == " I" and t[2:6].isdigit():
        n = int(t[2:].split(" ")[0])
        if n % 3 and type(x) is (str, bytes)[n % 3 - 1] and x == interpreted(n):
            return n
    return None


class Interp:
    """Interpretation functions which log their calls; values are handled as ids."""

    def __init__(self, to_id, keyid, blank=None, top=0, empty=None):
        self.log, self.to_id, self.keyid = [], to_id, keyid
        self.blank, self.top, self.empty = blank, top, empty
        self.fail = None

    def fn(self, lv):
        def f(k, v):
            if self.fail and self.fail[0] == self.keyid(k) and lv == self.fail[1]:
                raise self.fail[2]
            self.log.append((lv, self.keyid(k), self.to_id(v)))
            if lv == self.top and self.blank[self.keyid(k) - 1]:
                return None if self.blank[self.keyid(k) - 1] == -6 else self.empty
            return interpreted(self.to_id(v) + 1000 + 100 * self.keyid(k))
        return f


def lin_record(w):
    rnd = w.rnd
    base = w.scratch("tars")
    quick = w.tier == "quick"
    plans = []
    # every archive of up to 2 members, every filter and key function
    opts = [(k, n) for k in (1, 2, 3) for n in (1, 2)]
    for ln in range(0, 3):
        for ms in itertools.product(opts, repeat=ln):
            members = [(k, n, i + 1) for i, (k, n) in enumerate(ms)]
            combos = [(list(ns), list(kf), list(ks)) for ns in ([], [1], [2], [1, 2]) for kf in itertools.product((0, 1, 2), repeat=2)
                      for ks in ([], [1], [2], [1, 2])]
            if quick:
                combos = rnd.sample(combos, 36)
            plans.append((members, 2, combos, 0))
    for _ in range(250 if quick else 2500):
        nn = rnd.randint(1, len(NAMES) - 1)
        members = [(rnd.choice([1, 1, 1, 1, 2, 3, 4, 5]), rnd.randint(1, nn), rnd.randint(1, 10)) for _ in range(rnd.choice(list(range(13)) * 4 + [30, 260]))]
        combos = []
        for _ in range(4):
            combos.append(([n for n in range(1, nn + 1) if rnd.random() < 0.75],
                           [rnd.choice([0, 1, 2, 3, 4, 5, 6]) for _ in range(nn)],
                           [k for k in range(1, 7) if rnd.random() < 0.75]))
        plans.append((members, nn, combos, 1))
    for n, (members, nn, combos, big) in enumerate(plans):
        utf = rnd.random() < 0.4
        src = UTF if utf else CONTENTS
        contents = [None] + rnd.sample(src, len(src))
        names = [None] + rnd.sample(NAMES, nn)
        keys = [None] + rnd.sample(KEYNAMES, len(KEYNAMES))
        p = Path(base, "t%d.tgz" % (n % 30))
        build(p, members, names, contents, rnd, rnd.choice(["w:gz", "w:gz", "w", "w:bz2"]))
        before = p.read_bytes()
        strs = [None] + [c.decode("utf-8") for c in contents[1:]] if utf else None

        def cid(v):
            if interpreted_id(v) is not None:
                return interpreted_id(v)
            pool = strs if as_str else contents
            for i, t in enumerate(pool):
                if i and type(t) is type(v) and t == v:
                    return i
            return -77
        for ns, kf, ks in combos:
            as_str = utf and rnd.random() < 0.5
            level = rnd.choice([0, 0, 1, 2]) if big else rnd.choice([0, 0, 0, 1])
            nset = {names[i] for i in ns}
            kset = {keys[i] for i in ks}
            asked = []

            fail = [0, 0]
            mine = own_error(rnd)
            if rnd.random() < 0.15:
                who = rnd.choice([1, 2, 3] + [4] * 3 * (level > 0))
                ids = [m[1] for m in members] if who < 3 else [k for k in kf if k]
                # (whether names of members which are no files are asked about is left open)
                ids = [x for x in ids if who > 2 or all(m[0] == 1 for m in members if m[1] == x)]
                if ids:
                    fail = [who, rnd.choice(ids)]

            def failing(who, x, table):
                if fail[0] == who and table[fail[1]] == x:
                    raise mine

            def keyfn(name):
                failing(2, name, names)
                asked.append(name)
                i = kf[names.index(name) - 1]
                return keys[i] if i else None
            kw = {}
            full_names = len(ns) == nn
            if fail[0] == 1 or not (full_names and rnd.random() < 0.5):
                kw["name_filter"] = lambda x: failing(1, x, names) or x in nset
            kw["key_function"] = keyfn
            mk = (KeyValueLinearSource.str_linear_source_from_tar_gz if as_str else
                  rnd.choice([KeyValueLinearSource.byte_linear_source_from_tar_gz, TarGzipBytesLinearKeyValueSource]))
            rec = dict(members=[list(m) for m in members], names=ns, keyfn=kf, keys=ks, level=level, upto=9999, res="ok",
                       out=[], calls=[[] for _ in range(level)], as_str=as_str, fail=fail)
            w.doing("linear %s" % rec)
            it = Interp(cid, lambda k: keys.index(k) if k in keys else -77)
            if fail[0] == 4:
                it.fail = (fail[1], rnd.randint(1, level), mine)

            def go():
                s = mk(p, **kw)
                for lv in range(1, level + 1):
                    s = KeyValueLinearSource.interpret_values(s, it.fn(lv))
                outs = []
                reps = rnd.choice([1, 2])
                for _ in range(reps):
                    n_open = len(os.listdir("/proc/self/fd"))
                    with s as src_:
                        if fail[0]:
                            res, got = "ok", []
                            try:
                                for pair in src_.items(lambda k: failing(3, k, keys) or k in kset):
                                    got.append(pair)
                            except Exception as e:
                                res = "raised" if e is mine else "%s %s" % (type(e).__name__, e)
                            outs.append((9999, [[it.keyid(k), cid(v)] for k, v in got], [], res))
                            continue
                        for upto in rnd.choice([[9999], [9999, 9999], [1, 9999], [2]]):
                            it.log.clear()
                            flt = (lambda k: k in kset)
                            items = src_.items(flt) if rnd.random() < 0.5 else src_.items(key_filter=flt)
                            if it.log:
                                raise AssertionError("interpreted before anything was asked for")
                            got = list(itertools.islice(items, upto)) if upto != 9999 else list(items)
                            outs.append((upto, [[it.keyid(k), cid(v)] for k, v in got], list(it.log), "ok"))
                    if rnd.random() < 0.1 and not comes_out(rnd, s):
                        raise AssertionError("an error in the reader's own code was swallowed")
                    if len(os.listdir("/proc/self/fd")) > n_open:
                        raise AssertionError("the source has been left, and still holds the archive")
                return outs
            r = w.call(go)
            if r[0] != "ok":
                rec.update(res="%s %s" % (r[1], r[2]))
                w.record(rec)
                continue
            for upto, out, log, res in r[1]:
                c = [[[k, v] for lv, k, v in log if lv == j] for j in range(1, level + 1)]
                w.record(dict(rec, upto=upto, out=out, calls=c, res=res))
        if p.read_bytes() != before:
            w.mismatch("iterating a tar source changed the archive")
        if w.full():
            return


class DictSource(KeyValueSource):
    """A user's own source: values may be None, the keys may be unknown."""

    def __init__(self, d):
        self.d, self.open = d, 0

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, _default=None):
        return self.d[k] if k in self.d else _default

    def keys(self):
        return immutableset(self.d)

    def __enter__(self):
        self.open += 1
        return self

    def __exit__(self, *a):
        self.open -= 1
        return None


def interp_record(w):
    rnd = w.rnd
    base = w.scratch("ip")
    nk = w.input["nkeys"]
    falsy = [None, "", 0, False, (), "v", 3.5]
    for n in range(w.input["histories"]):
        keys = [None] + (rnd.sample(KEYNAMES, nk) if nk <= len(KEYNAMES) else ["key%d" % i for i in range(nk)])
        kind = rnd.choice(["dict", "dict", "zip", "zipb", "files"])
        present = sorted(rnd.sample(range(1, nk + 1), rnd.randint(0, nk)))
        vals = [None] + ([rnd.sample(falsy, 7), UTF[:7], CONTENTS[:7]][0 if kind == "dict" else 2 if kind == "zipb" else 1])
        if kind in ("zip", "files"):
            vals = [None] + [v.decode("utf-8") for v in vals[1:]]
            if kind == "files":
                vals = [None] + [v for v in vals[1:] if "\r" not in v]
        nv = len(vals) - 1
        vs = [rnd.randint(1, nv) for _ in present]
        d = {keys[k]: vals[v] for k, v in zip(present, vs)}
        level = rnd.choice([1, 1, 2, 3])
        # the outermost function may give a null or another false value for some keys
        blank = [rnd.choice([0, -5, -6]) if n % 3 == 0 else 0 for _ in range(nk)]
        empty = rnd.choice(["", 0, False, (), 0.0])

        def vid(x):
            if interpreted_id(x) is not None:
                return interpreted_id(x)
            for i, t in enumerate(vals):
                if i and type(t) is type(x) and t == x:
                    return i
            return -77

        def keyid(k):
            return keys.index(k) if k in keys[1:] else -77
        it = Interp(vid, keyid, blank, level, empty)

        def aid(x):
            """Code of an answer."""
            return -6 if x is None else -5 if x is empty else vid(x)
        p = Path(base, "i%d.zip" % (n % 10))

        def provide():
            """Make the underlying store hold what d says."""
            if kind in ("zip", "zipb"):
                with (KeyValueSink.zip_character_sink if kind == "zip" else KeyValueSink.zip_bytes_sink)(p) as o:
                    for k, v in d.items():
                        o.put(k, v)
            elif kind == "files":
                for k, v in d.items():
                    Path(base, "f%d_%d" % (n % 10, keys.index(k))).write_bytes(v.encode("utf-8"))
        provide()
        if kind == "dict":
            s = DictSource(d)
        elif kind in ("zip", "zipb"):
            s = (KeyValueSource.zip_character_source if kind == "zip" else KeyValueSource.zip_bytes_source)(p)
        else:
            s = KeyValueSource.from_path_mapping([(k, Path(base, "f%d_%d" % (n % 10, keys.index(k)))) for k in d])
        inner = s
        for lv in range(1, level + 1):
            s = KeyValueSource.interpret_values(s, it.fn(lv))
        w.record(dict(op="new", ks=list(present), vs=vs, level=level, kind=kind, blank=blank))

        def change():
            """The underlying store is made anew (files keep their keys)."""
            now = present if kind == "files" else sorted(rnd.sample(range(1, nk + 1), rnd.randint(0, nk)))
            nvs = [rnd.randint(1, nv) for _ in now]
            d.clear()
            d.update((keys[k], vals[v]) for k, v in zip(now, nvs))
            present[:] = now
            provide()
            w.record(dict(op="change", a=0, how="", ks=list(now), vs=nvs, ans=0, calls=[]))

        def steps():
            for round_ in range(rnd.choice([1, 1, 2, 3])):
                if round_:
                    change()
                within()

        def within():
            with s as src:
                for _ in range(rnd.choice([4, 8])):
                    it.log.clear()
                    if kind in ("dict", "files") and rnd.random() < 0.05:
                        change()
                    z = rnd.random()
                    if z < 0.7:
                        a = rnd.randint(1, nk)
                        how = rnd.choice(["plain", "default", "index"])
                        dflt = rnd.choice([None, object(), "", 0]) if how == "default" else None
                        rec = dict(op="get", a=a, how=how)
                        w.doing("interp %s" % rec)
                        if how == "plain":
                            x = src.get(keys[a])
                            rec["ans"] = -1 if x is None else aid(x)
                        elif how == "default":
                            marker = object()
                            x = src.get(keys[a], marker)
                            rec["ans"] = -2 if x is marker else aid(x)
                            logged = list(it.log)
                            if x is marker and src.get(keys[a], dflt) is not dflt:
                                rec["ans"] = -71
                            it.log[:] = logged
                        else:
                            try:
                                rec["ans"] = aid(src[keys[a]])
                            except KeyError:
                                rec["ans"] = -3
                        rec["calls"] = [list(c) for c in it.log]
                        if rnd.random() < 0.2:
                            # the same, while interpreting some key fails
                            w.record(rec)
                            mine = own_error(rnd)
                            it.fail = (rnd.choice([a, a, rnd.randint(1, nk)]), rnd.randint(1, level), mine)
                            rec = dict(op="getfail", a=a, b=it.fail[0], how=how, calls=[])
                            marker = object()
                            try:
                                x = src.get(keys[a]) if how == "plain" else src.get(keys[a], marker) if how == "default" else src[keys[a]]
                                rec["ans"] = -1 if x is None and how == "plain" else -2 if x is marker else aid(x)
                            except Exception as e:
                                rec["ans"] = -8 if e is mine else -3 if isinstance(e, KeyError) else -70
                            it.fail = None
                    elif z < 0.82:
                        rec = dict(op="keys", a=0, how="")
                        rec["ans"] = sorted(keyid(k) for k in src.keys())
                        rec["calls"] = [list(c) for c in it.log]
                    else:
                        filt = sorted(rnd.sample(range(1, nk + 1), rnd.randint(0, nk)))
                        fs = {keys[k] for k in filt}
                        rec = dict(op="items", a=0, how="", filt=filt)
                        if len(filt) == nk and rnd.random() < 0.5:
                            got = list(src.items())
                        else:
                            got = list(src.items(lambda k: k in fs))
                        pairs = sorted((keyid(k), aid(v)) for k, v in got)
                        rec["ans"] = [x for t in pairs for x in t]
                        # calls come item by item: group them per key for comparison
                        rec["calls"] = [list(c) for c in sorted(it.log, key=lambda c: c[1])]
                        if rnd.random() < 0.2:
                            # two iterations under way at once: neither is disturbed
                            w.record(rec)
                            both = interleaved(src, rnd, keys[1:])
                            rec = dict(op="itemsfail", a=0, b=0, how="", filt=list(range(1, nk + 1)), calls=[],
                                       ans=[-71] if both is None else [x for t in sorted((keyid(k), aid(v)) for k, v in both) for x in t])
                        if rnd.random() < 0.4:
                            w.record(rec)
                            mine = own_error(rnd)
                            b = rnd.choice(present or [1])
                            at = rnd.randint(0, level)
                            it.fail = (b, at, mine) if at else None
                            rec = dict(op="itemsfail", a=0, b=b, how="", filt=filt if at else list(range(1, nk + 1)), calls=[])

                            def accept(k):
                                if not at and k == keys[b]:
                                    raise mine
                                return not at or k in fs
                            try:
                                pairs = sorted((keyid(k), aid(v)) for k, v in src.items(accept))
                                rec["ans"] = [x for t in pairs for x in t]
                            except Exception as e:
                                rec["ans"] = [-8 if e is mine else -70]
                            it.fail = None
                    w.record(rec)
        r = w.call(steps)
        if r[0] == "ok" and rnd.random() < 0.3 and not comes_out(rnd, s):
            r = ("err", "an error in the reader's own code was swallowed", "")
        if r[0] != "ok":
            w.record(dict(op="get", a=1, how="plain", ans=-90, calls=[], err="%s %s" % (r[1], r[2])))
        if kind == "dict" and inner.open != 0:
            w.mismatch("an interpreted source left its wrapped source entered (%d)" % inner.open)
