"""Drivers for character and byte sources and sinks, and the little file formats."""
import gzip
import io
import logging
import contextlib
import os
import pickle
import re
import shutil
import tarfile
import zipfile
from pathlib import Path

from vistautils.io_utils import (ByteSink, ByteSource, CharSink, CharSource, file_lines_to_set, is_empty_directory,
                                 read_doc_id_to_file_map, write_doc_id_to_file_map)
from vistautils.parameters import Parameters

# the character each abstract letter of an exported text becomes; LF stays LF
FILLS = [["a", "b", " "], ["\u00e9", "\u2028", "\x85"], ["\U0001f600", "\x0b", "\x0c"], ["\0", "\ufeff", "\u00a0"], ["\t", "0", "\x1c"],
         ["\u4e2d", "\x1d", "\x1e"]]
CHARPOOL = [10, 10, 10, 97, 98, 32, 0, 9, 0x85, 0x2028, 0x2029, 0x0b, 0x0c, 0x1c, 0xe9, 0x4e2d, 0x1f600, 0xfeff, 0xa0, 48, 0xffff, 0x10ffff]


class Media:
    """One slot.  kind says through what it is written and read."""

    def __init__(self, kind, d, rnd, name, enc="utf-8"):
        self.kind, self.rnd, self.enc, self.name = kind, rnd, enc, name
        self.path = Path(d, "sub" if rnd.random() < 0.3 else ".", name)
        self.zip = Path(d, "shared.zip")
        self.d = d
        self.sink = None
        self.src = None
        self.bytes = kind.startswith("b")
        self.null = kind == "null"
        self.preset = kind in ("gz", "tgz", "string", "nowhere", "null")
        self.cr = kind in ("string", "tgz") or self.bytes     # media which keep carriage returns
        self.entry = rnd.choice(["e", "dir/", "\u00e9"]) + name
        self.big = False
        self.spoiled = False    # bytes which are no text in the encoding
        self.lost = ""      # a member of an archive that is not there, or is no file

    def make(self, codes):
        """Create the content of a read-only medium."""
        t = "".join(map(chr, codes))
        if self.kind == "gz":
            data = self.spoil(t.encode(self.enc))
            cut = self.rnd.choice([0, 0, len(data), len(data) // 2])       # gzip files may have several members
            with open(str(self.path_()), "wb") as f:
                if cut or self.rnd.random() < 0.3:
                    f.write(gzip.compress(data[:cut]))
                f.write(gzip.compress(data[cut:]))
        elif self.kind == "tgz":
            data = self.spoil(t.encode(self.enc))
            form = self.rnd.choice(["", "", "", "again", "hard", "sym"])
            with tarfile.open(str(self.path_()), "w:gz") as z:
                for n, b in (("other", b"zzz"), (self.entry, data), (self.entry + "x", b"yyy")):
                    i = tarfile.TarInfo(n)
                    if n == self.entry and self.lost == "absent":
                        continue
                    if n == self.entry and not self.lost and form:
                        if form == "again":         # an earlier member of the same name: the last one counts
                            i.size = 2
                            z.addfile(i, io.BytesIO(b"no"))
                            i = tarfile.TarInfo(n)
                        else:                       # a link to another member: what can be read is that member's content
                            t_ = tarfile.TarInfo("real" + n if form == "hard" else os.path.join(os.path.dirname(n), "real"))
                            t_.size = len(b)
                            z.addfile(t_, io.BytesIO(b))
                            i.type = tarfile.LNKTYPE if form == "hard" else tarfile.SYMTYPE
                            i.linkname = t_.name if form == "hard" else "real"
                            z.addfile(i)
                            continue
                    if n == self.entry and self.lost == "directory":
                        i.type = tarfile.DIRTYPE
                        z.addfile(i)
                        continue
                    i.size = len(b)
                    z.addfile(i, io.BytesIO(b))
        elif self.kind == "string":
            self.text = t
        elif self.kind in ("file", "bfile", "wrapfile"):
            # somebody else wrote the file
            self.path_().write_bytes(self.spoil(self.enc_(codes) if self.kind != "file" else self.enc_(codes).encode("utf-8")))

    def spoil(self, data):
        """Make the bytes no text any more."""
        if not self.spoiled:
            return data
        if self.enc.startswith("utf-16"):
            return data + b"a"
        if self.enc == "utf-8" and self.rnd.random() < 0.5:
            at = self.rnd.randint(0, len(data))
            while at < len(data) and data[at] & 0xc0 == 0x80:
                at += 1
            return data[:at] + self.rnd.choice([b"\xff", b"\xed\xa0\x80", b"\xc0\x80", b"\x80"]) + data[at:]
        return data + b"\xe4\xb8"

    def path_(self):
        self.path.parent.mkdir(parents=True, exist_ok=True)
        return self.path

    def get_sink(self):
        if self.sink is None or self.rnd.random() < 0.5:
            k = self.kind
            if k == "file":
                self.sink = CharSink.to_file(self.path if self.rnd.random() < 0.5 else str(self.path))
            elif k == "null":
                self.sink = CharSink.to_nowhere()
            elif k == "ssink":
                if self.sink is None:
                    self.sink = CharSink.to_string()
            elif k in ("bfile", "wrapfile"):
                self.sink = ByteSink.to_file(self.path)
            elif k in ("bzip", "wrapzip"):
                self.sink = ByteSink.file_in_zip(self.zip, self.entry)
            elif k == "bbuf":
                if self.sink is None:
                    self.sink = ByteSink.to_buffer()
        return self.sink

    def enc_(self, codes):
        if self.bytes:
            return bytes(codes)
        t = "".join(map(chr, codes))
        return t.encode(self.enc) if self.kind.startswith("wrap") else t

    def write(self, codes):
        self.get_sink().write(self.enc_(codes))

    def pieces(self, ps):
        if not self.kind.startswith("wrap"):
            return [self.enc_(p) for p in ps]
        # the bytes of the whole text (one byte order mark), cut anywhere
        whole = self.enc_([c for p in ps for c in p])
        cuts = sorted(self.rnd.randint(0, len(whole)) for _ in ps[1:])
        return [whole[a:b] for a, b in zip([0] + cuts, cuts + [len(whole)])] if ps else []

    def parts(self, ps, fail=False):
        r = self.rnd

        class Boom(Exception):
            pass
        try:
            # what was opened is not given up soon: closing is what matters
            before = fds()
            f = self.kept = self.get_sink().open()
            with contextlib.closing(f) if r.random() < 0.3 else f as f:
                for p in self.pieces(ps):
                    if r.random() < 0.3 and self.kind not in ("wrapzip", "bzip"):
                        f.writelines([p[:1], p[1:]])
                    elif r.random() < 0.2 and isinstance(p, str):
                        print(p[:2], p[2:], sep="", end="", file=f, flush=r.random() < 0.5)
                    else:
                        f.write(p)
                if fail:
                    raise Boom()
        except Boom:
            pass
        if fds() > before:
            raise AssertionError("closing left a file open")

    def two_at_once(self, ps, other):
        """The sink is opened a second time while it is open; what is closed last counts."""
        sink = self.get_sink()
        a, b = sink.open(), sink.open()
        if self.rnd.random() < 0.5:
            a, b = b, a
        other = self.enc_(other)
        a.write(other)
        for p in self.pieces(ps):
            b.write(p)
        a.close()
        now = sink.last_bytes_written if self.bytes else sink.last_string_written
        if now != other:
            raise AssertionError("the stream closed first gives %r, and %r was written to it" % (now, other))
        b.close()

    def source(self, opened=None):
        k = self.kind
        if k == "file":
            return CharSource.from_file(self.path if self.rnd.random() < 0.5 else str(self.path))
        if k == "null" or k == "nowhere":
            return CharSource.from_nowhere()
        if k == "ssink":
            if self.sink is None:
                raise IOError("nothing written")
            return CharSource.from_string(self.sink.last_string_written)
        if k == "string":
            return CharSource.from_string(self.text)
        if k == "gz":
            return CharSource.from_gzipped_file(self.path) if self.enc == "utf-8" and self.rnd.random() < 0.5 \
                else CharSource.from_gzipped_file(self.path, self.enc)
        if k == "tgz":
            return CharSource.from_file_in_tgz(self.path, self.entry, encoding=self.enc) if self.enc != "utf-8" or \
                self.rnd.random() < 0.5 else CharSource.from_file_in_tgz(self.path, self.entry)
        if k == "bfile":
            return ByteSource.from_file(self.path)
        if k == "bzip":
            return ByteSource.from_file_in_zip(opened or self.zip, self.entry)
        if k == "bbuf":
            b = self.sink.last_bytes_written if self.sink else None
            if b is None:
                raise IOError("nothing written")
            return BytesHolder(b)
        if k == "wrapfile":
            s = ByteSource.from_file(self.path)
        else:
            if self.enc == "utf-8" and self.rnd.random() < 0.5:
                return CharSource.from_file_in_zip(opened or self.zip, self.entry)
            s = ByteSource.from_file_in_zip(opened or self.zip, self.entry)
        return CharSource.from_byte_source(s, encoding=self.enc) if self.enc != "utf-8" or self.rnd.random() < 0.5 \
            else CharSource.from_byte_source(s)

    def read(self, how, n):
        r = self.rnd
        if self.kind in ("bzip", "wrapzip") and r.random() < 0.5:
            with zipfile.ZipFile(str(self.zip)) as z:
                return self.read_from(self.pick_source(z), how, n)
        return self.read_from(self.pick_source(None), how, n)

    def pick_source(self, z):
        # a source object may be kept: it stands for the medium, not for one reading of it
        if z is None and self.src is not None and self.kind not in ("ssink", "bbuf") and self.rnd.random() < 0.5:
            return self.src
        s = self.source(z)
        if z is None:
            self.src = s
        return s

    def codes(self, x):
        if isinstance(x, (bytes, bytearray)):
            return list(x)
        return [ord(c) for c in x]

    def read_from(self, s, how, n):
        """What is read; what was opened for it is held on to, but closed."""
        self.handles = []
        before = fds()
        out = self.reading(s, how, n)
        return out if fds() <= before else [-9]

    def opened(self, s):
        self.handles.append(s.open())
        return self.handles[-1]

    def reading(self, s, how, n):
        r = self.rnd
        if how == "empty":
            return [1 if s.is_empty() else 0]
        if self.bytes:
            if how == "all":
                return self.codes(s.read())
            if how == "prefix":
                return self.codes(s.read(n) if r.random() < 0.5 else s.read(size=n))
        else:
            if how == "all":
                return self.codes(s.read_all())
            if how == "lines":
                return [self.codes(x) for x in s.readlines()]
            if how == "prefix":
                with self.opened(s) as f:
                    return self.codes(f.read(n))
        z = r.randint(0, 3)
        empty = b"" if self.bytes else ""
        if z == 0:
            with self.opened(s) as f:
                got = []
                while True:
                    c = f.read(n if n > 0 else 3)
                    if not c:
                        break
                    got.append(c)
                return self.codes(empty.join(got))
        if z == 1:
            with self.opened(s) as f:
                return self.codes(empty.join(list(f)))
        if z == 2:
            with self.opened(s) as f:
                got = []
                while True:
                    c = f.readline()
                    if not c:
                        break
                    got.append(c)
                return self.codes(empty.join(got))
        # two independent readings at once
        a, b = self.opened(s), self.opened(s)
        x = a.read(2) + b.read(1)[:0] + a.read()
        y = b.read()
        a.close()
        b.close()
        x = x if len(x) < 1 or not y else x
        if x[1:] != y:
            return [-5]
        return self.codes(x)


def fds():
    return len(os.listdir("/proc/self/fd"))


class BytesHolder:
    def __init__(self, b):
        self.b = b

    def read(self, size=-1):
        return io.BytesIO(self.b).read(size)

    def open(self):
        return io.BytesIO(self.b)


CHAR_KINDS = ["file", "file", "ssink", "null", "gz", "tgz", "string", "nowhere", "wrapfile", "wrapzip", "wrapzip"]
# names somebody might make up for a file of one's own beside another one's
RELATED = ["m", "m.txt", "m.tmp", "m.txt.tmp", "m~", "m.txt~", ".m", ".m.txt", ".m.tmp", "tmp", "m.bak", "m.txt.bak", "m.new", "m.old", "m.part", "m.lock", "m.gz", "m.tar",
           "_m", "~m", "m.swp", ".m.txt.swp", "m.1", "M"]
BYTE_KINDS = ["bfile", "bzip", "bbuf"]


def spoilable(m):
    return m.enc.startswith("utf-8") or m.enc.startswith("utf-16")


def hows(m):
    if m.bytes:
        return ["all", "prefix", "stream"] + (["empty"] if m.kind == "bfile" else [])
    return ["all", "lines", "stream", "empty", "prefix"]


def encs(kind, codes_max):
    if kind == "tgz":       # the encoding is that of the member names too
        return ["utf-8", "utf-8"] + (["latin-1"] if codes_max < 256 else [])
    if kind == "gz":
        return ["utf-8", "utf-8", "utf-16-le", "utf-16", "utf-8-sig"] + (["latin-1"] if codes_max < 256 else [])
    if kind.startswith("wrap"):
        return ["utf-8", "utf-8", "utf-16", "utf-32", "utf-8-sig", "utf-16-be"] + (["latin-1"] if codes_max < 256 else [])
    return ["utf-8"]


def text_replay(w):
    """Every exported text through every medium and every way of reading."""
    rnd = w.rnd
    base = w.scratch("texts")
    kinds = ["file", "ssink", "gz", "tgz", "string", "wrapfile", "wrapzip"]
    # one of them is repeated more than a million characters long
    huge = rnd.choice([n for n, t in enumerate(w.input["texts"]) if t["s"][-1:] == [10] and t["s"].count(10) > 1])
    huge_kinds = rnd.sample(kinds, 3)
    for n, t in enumerate(w.input["texts"]):
        for kind in kinds:
            fill = rnd.choice(FILLS)

            # each letter may stand for a long run of itself: lines do not depend on how long they are
            run = rnd.choice([5000, 9000, 70000]) if rnd.random() < 0.04 else 1

            def conc(cs):
                return [x for c in cs for x in ([10] if c == 10 else [ord(fill[c - 1])] * run)]
            codes, lines = conc(t["s"]), [conc(x) for x in t["lines"]]
            if run == 1 and n == huge and kind in huge_kinds:
                k = 2 ** 20 // len(codes) + 200
                codes, lines, run = codes * k, lines * k, 2
            elif run == 1 and codes[-1:] == [10] and rnd.random() < 0.1:
                # over and over: so many more lines
                k = rnd.choice([3, 20, 100, 700])
                codes, lines = codes * k, lines * k
            d = Path(base, "d%d" % (n % 20))
            if d.exists():
                shutil.rmtree(str(d))
            d.mkdir()
            m = Media(kind, d, rnd, "m", rnd.choice(encs(kind, max([0] + codes))))
            if codes[:1] == [0xfeff] and m.enc in ("utf-16", "utf-32", "utf-8-sig"):
                m.enc = "utf-8"
            w.doing("text %r through %s" % (codes[:50], kind))

            def go():
                if m.preset:
                    m.path_()
                    m.make(codes)
                elif rnd.random() < 0.5:
                    m.write(codes)
                else:
                    k = rnd.randint(0, len(codes))
                    m.parts([codes[:k], codes[k:]])
                return dict(all=m.read("all", 0), lines=m.read("lines", 0), stream=m.read("stream", rnd.randint(1, 3) if run == 1 else 4000),
                            empty=m.read("empty", 0))
            r = w.call(go)
            want = dict(all=codes, lines=lines, stream=codes, empty=[1 if not codes else 0])
            if run > 1 and (r[0] != "ok" or r[1] != want):
                w.mismatch("text %r, each letter %d times, through %s (%s): the code gives something else (%s)" % (
                    t["s"], run, kind, m.enc, [k for k in want if r[1][k] != want[k]] if r[0] == "ok" else r[1]), codes=t["s"], medium=kind, times=run)
            elif r[0] != "ok" or r[1] != want:
                w.mismatch("text %r through %s (%s): specification says %s, code gives %s" % (codes, kind, m.enc, want, r[1:]),
                           codes=codes, medium=kind)
        if w.full():
            return


def media_record(w):
    rnd = w.rnd
    base = w.scratch("media")
    nslots = w.input["slots"]
    for n in range(w.input["histories"]):
        d = Path(base, "h%d" % (n % 20))
        if d.exists():
            shutil.rmtree(str(d))
        d.mkdir()
        latin = rnd.random() < 0.2
        pool = [c for c in CHARPOOL if c < 256] if latin else CHARPOOL

        def text(m, mx=14):
            ln = rnd.choice([0, 1, 2, 5, mx])
            if rnd.random() < 0.02:
                m.big = True
                k = rnd.choice([511, 513, 4096, 8191, 8193, 9000])
                return ([1 + i % 250 for i in range(k)] if m.bytes else [0x4e00 + i % 250 if i % 100 else 98 for i in range(k)] if not latin else [65 + i % 50 for i in range(k)])
            if m.bytes:
                return [rnd.choice([0, 10, 13, 65, 255, 128, 254, rnd.randint(0, 255)]) for _ in range(ln)]
            p = pool + ([13, 13] if m.cr else [])
            t = [rnd.choice(p) for _ in range(ln)]
            if t[:1] == [0xfeff] and m.enc in ("utf-16", "utf-32", "utf-8-sig"):
                t = t[1:]
            return t
        slots = []
        names = ["m%d" % i for i in range(nslots)] if rnd.random() < 0.5 else rnd.sample(RELATED, nslots)
        for i in range(nslots):
            kind = rnd.choice(CHAR_KINDS + BYTE_KINDS)
            slots.append(Media(kind, d, rnd, names[i], rnd.choice(encs(kind, 255 if latin else 0x10ffff))))
        preset = []
        for m in slots:
            if m.preset:
                c = [] if m.kind in ("null", "nowhere") else text(m)
                m.path_()
                if m.kind == "tgz" and rnd.random() < 0.15:
                    m.lost = rnd.choice(["absent", "directory"])
                elif m.kind in ("gz", "tgz") and spoilable(m) and rnd.random() < 0.15:
                    m.spoiled = True
                m.make(c)
                preset.append([-1] if m.lost else [-2] if m.spoiled else c)
            elif m.kind in ("file", "bfile", "wrapfile") and rnd.random() < 0.4:
                c = text(m, 40)
                m.spoiled = m.kind != "bfile" and spoilable(m) and rnd.random() < 0.2
                m.make(c)
                preset.append([-2] if m.spoiled else c)
                m.spoiled = False
            else:
                preset.append([-1])
        w.record(dict(op="new", preset=preset, kinds=[m.kind for m in slots]))
        gave_up = False
        for _ in range(rnd.choice([6, 14])):
            i = rnd.randint(1, nslots)
            m = slots[i - 1]
            rec = dict(a=i, s=[], ps=[], how="", n=0, ans=[], res="ok", null=m.null, kind=m.kind, enc=m.enc)
            k = rnd.random()
            writable = not m.preset or m.null
            if writable and k < 0.3:
                rec.update(op="write", s=text(m, 40))
                r = w.call(m.write, rec["s"])
            elif writable and k < 0.45:
                rec.update(op="parts", ps=[text(m) for _ in range(rnd.randint(0, 4))])
                r = w.call(m.parts, rec["ps"])
            elif m.kind in ("ssink", "bbuf") and k < 0.52:
                # opened again while it is open: two streams, each of its own, and what is closed last is there
                rec.update(op="parts", ps=[text(m) for _ in range(rnd.randint(0, 3))])
                r = w.call(m.two_at_once, rec["ps"], text(m))
            elif m.kind == "file" and k < 0.52:
                # text which cannot be encoded
                rec.update(op="unfit")
                t = "".join(map(chr, text(m, 20)))
                at = rnd.randint(0, len(t))
                t = t[:at] + rnd.choice(["\ud800", "\udc80", "\udfff"]) + t[at:]
                if rnd.random() < 0.5:
                    r = w.call(lambda: m.get_sink().write(t))
                else:
                    def go():
                        with m.get_sink().open() as f:
                            f.write(t)
                    r = w.call(go)
            elif writable and k < 0.5 and m.kind not in ("bzip", "wrapzip"):
                rec.update(op="fail", ps=[text(m) for _ in range(rnd.randint(0, 2))])
                r = w.call(m.parts, rec["ps"], True)
            else:
                rec.update(op="read", how=rnd.choice([h for h in hows(m) if not m.big or h != "lines"]), n=rnd.choice([0, 1, 2, 3, 4, 5, 6, 6, 8192]))
                w.doing("media %s" % rec)
                r = w.call(m.read, rec["how"], rec["n"])
                if r[0] == "ok":
                    rec["ans"] = r[1]
            if r[0] != "ok":
                rec["res"] = "err"
                rec["err"] = "%s %s" % (r[1], str(r[2])[:200])
            if rec["op"] == "fail":
                gave_up = True
            w.record(rec)
        ours = {os.path.realpath(str(m.path)) for m in slots} | {os.path.realpath(str(slots[0].zip))}
        there = [os.path.join(x, f) for x, _, fs in os.walk(os.path.realpath(str(d))) for f in fs]
        if not gave_up:
            w.record(dict(op="files", a=1, s=[], ps=[], how="", n=len(set(there) - ours), ans=[], res="ok", null=False, kind="", enc=""))


# --------------------------------------------------------------------------- file formats
IDS = ["docid", "id", "key", "path", "d1", "d2", "D1", "\u00e9", "0", "id with space", "#x", "a.b", "%", "v\x0bt", "l\u2028s", "\ufeffd1"] + ["doc-%d" % i for i in range(90)] + [""]
PATHS = ["/a/b.txt", "/a/\u00e9", "/x y/z", "/", "/a", "/b#c", "x/y", "../u", "p\x0c\u2028q", "."]   # the last four are relative
RESOLVED = ["/r/x/y", "/r/../u", "/r/p\x0c\u2028q", "/r"]


PICKLED = [None, 0, False, "", "x\n\u2028\U0001f600", b"\0\n\xff", [1, [2, {}]], {"a": (1, 2.5)}, frozenset([1, "b"]), 10 ** 40, Path("/a"), {}]


def pathno(p):
    s = str(p)
    return PATHS.index(s) + 1 if s in PATHS else 10 + RESOLVED.index(s) + 7


class Heard(logging.Handler):
    """What is logged while it listens."""

    def __enter__(self):
        self.said = []
        self.root = logging.getLogger()
        self.before = (self.root.level, self.root.manager.disable, self.root.handlers[:])
        logging.disable(logging.NOTSET)
        self.root.handlers[:] = [self]
        self.root.setLevel(logging.INFO)
        return self

    def __exit__(self, *_):
        self.root.setLevel(self.before[0])
        logging.disable(self.before[1])
        self.root.handlers[:] = self.before[2]

    def emit(self, r):
        self.said.append((r.levelno, r.getMessage()))


def formats_record(w):
    rnd = w.rnd
    base = w.scratch("fmt")
    n = w.input["rounds"]

    def told(h, kw, count, f):
        """A name to log is logged with the number of what was loaded and, for a file, its name."""
        return "log_name" not in kw or any(lev == logging.INFO and kw["log_name"] in m and str(count) in re.findall(r"[0-9]+", m) and (f is None or str(f) in m) for lev, m in h.said)
    for i in range(n):
        f = Path(base, "f%d" % (i % 10))
        # doc-id-to-file maps: hand-written text
        lines = []
        for at in range(rnd.choice([0, 1, 2, 3, 5] * 6 + [20, 80])):
            nf = rnd.choice([2, 2, 2, 2, 2, 2, 1, 3, 0])
            if at >= 5 or rnd.random() < 0.75:
                nf = 2
            lines.append([(at + 13 if at >= 5 else rnd.choice([rnd.randint(1, 14), len(IDS), rnd.randint(1, len(IDS))])) if j == 0 else rnd.choice([rnd.randint(1, len(PATHS)), 10]) for j in range(nf)])
        pad = lambda: rnd.choice(["", "", " ", "  "])

        def fld(j, x, l):
            return pad() + ("" if j and x == 10 and rnd.random() < 0.7 else (IDS if j == 0 else PATHS)[x - 1]) + pad()
        text = "".join("\t".join(fld(j, x, l) for j, x in enumerate(l)) + "\n" for l in lines)
        final = rnd.random() < 0.7 or not lines or not lines[-1] or lines[-1] == [len(IDS)]   # a blank last line needs its line end
        if not final:
            text = text[:-1]
        f.write_text(text, encoding="utf-8")
        which = rnd.choice(["map", "param", "paramrel"])
        rec = dict(op="parse", lines=lines, res="ok", out=[], which=which, told=True)

        def go():
            if which == "map":
                m = read_doc_id_to_file_map(rnd.choice([CharSource.from_file(f), CharSource.from_string(text)]))
            else:
                kw = {"resolve_relative_to": Path("/r")} if which == "paramrel" else {}
                if rnd.random() < 0.5:
                    kw["log_name"] = "g%dz" % i
                with Heard() as h:
                    m = Parameters.from_mapping({"x": str(f)}).path_map_from_file("x", **kw)
                rec["told"] = told(h, kw, len(m), f)
            return [[IDS.index(k) + 1, pathno(v)] for k, v in m.items()]
        r = w.call(go)
        rec["res"], rec["out"] = (r[0], r[1] if r[0] == "ok" else [])
        w.record(rec)
        # written by the library, read by it
        m = {IDS[k - 1]: Path(PATHS[rnd.randrange(6)]) for k in rnd.sample(range(1, len(IDS)), rnd.choice([0, 1, 2, 3, 4, 5, 6] * 5 + [30, 90]))}
        rec = dict(op="roundtrip", res="ok", out=[], lines=[[IDS.index(k) + 1, PATHS.index(str(v)) + 1] for k, v in m.items()])

        # a relative path names the file it names where the map is written, wherever the map is read
        given = {k: Path(os.path.relpath(str(v), "/tmp")) if rnd.random() < 0.3 else v for k, v in m.items()}
        rel = {k: str(Path("/tmp") / v) for k, v in given.items()}

        def absolute(v):
            for k, x in rel.items():
                if x == str(v):
                    return str(m[k])
            return str(v)

        def go2():
            s = CharSink.to_string()
            sink = rnd.choice([s, CharSink.to_file(f)])
            here = os.getcwd()
            os.chdir("/tmp")
            try:
                write_doc_id_to_file_map(given, sink)
            finally:
                os.chdir(here)
            src = CharSource.from_string(s.last_string_written) if sink is s else CharSource.from_file(f)
            return [[IDS.index(k) + 1, PATHS.index(absolute(v)) + 1] for k, v in read_doc_id_to_file_map(src).items()]
        r = w.call(go2)
        rec["res"], rec["out"] = (r[0], r[1] if r[0] == "ok" else [])
        w.record(rec)
        # sets of lines, lists of paths.  A line is a sequence of letters: 1 white space, 2 '#', 3.. ordinary
        letters = {1: rnd.choice([" ", "\t"]), 2: "#", 3: rnd.choice(["a", "\ufeff"]), 4: "\u00e9", 5: rnd.choice(["B", "\u200b"])}
        ls = [[rnd.choice([1, 2, 3, 3, 4, 5]) for _ in range(rnd.choice([0, 1, 1, 2, 4]))] for _ in range(rnd.choice([0, 1, 3, 6] * 8 + [30, 100]))]
        for _ in range(2):
            if ls and rnd.random() < 0.5:
                ls.append(rnd.choice(ls))
        back = {v: k for k, v in letters.items()}
        # only newlines end the lines of a line set: characters others take for line ends are ordinary ones
        odd = {6: rnd.choice("\x0b\x0c\x1c\x1d\x85\u2028\u2029\u0301")}
        ls6 = [[6 if rnd.random() < 0.2 else c for c in l] for l in ls]
        f.write_text("\n".join("".join(odd.get(c) or letters[c] for c in l) for l in ls6) + rnd.choice(["", "\n"]), encoding="utf-8")
        back6 = dict(back, **{odd[6]: 6})
        rec = dict(op="lineset", lines=ls6, res="ok", out=[])
        r = w.call(lambda: [[back6[c] for c in x] for x in file_lines_to_set(f)])
        rec["res"], rec["out"] = (r[0], r[1] if r[0] == "ok" else [])
        w.record(rec)
        rel = rnd.random() < 0.3
        # the same paths, now absolute
        absolute_lines = rnd.random() < 0.3

        def path_line(l):
            s = "".join(letters[c] for c in l)
            k = len(s) - len(s.lstrip())
            return s[:k] + "/q/" + s[k:] if absolute_lines and s.strip() and s.strip()[0] != "#" else s
        f.write_text("\n".join(path_line(l) for l in ls) + rnd.choice(["", "\n"]), encoding="utf-8")
        rec = dict(op="pathlist", lines=ls, res="ok", out=[], told=True)

        def go3():
            kw = dict(resolve_relative_to=Path("/r")) if rel else {}
            src = {"x": str(f)} if rnd.random() < 0.7 else None
            if src is None:
                # what is given as a list has no comments
                rec["op"] = "pathitems"
                want = ["".join(letters[c] for c in l).strip() for l in ls]
                src = {"x": [("/q/" if absolute_lines else "") + s for s in want if s]}
            if rnd.random() < 0.5:
                kw["log_name"] = "g%dz" % i
            with Heard() as h:
                got = Parameters.from_mapping(src).path_list_from_file("x", **kw)
            rec["told"] = told(h, kw, len(got), f if isinstance(src["x"], str) else None)
            out = []
            for p in got:
                assert isinstance(p, Path)
                s = str(p)
                if s.startswith("/q/") and absolute_lines:
                    # absolute paths are not relative to anything
                    s = "/r/" + s[3:] if rel else s[3:]
                elif absolute_lines:
                    raise AssertionError(s)
                if rel:
                    assert s.startswith("/r/"), s
                    s = s[3:]
                out.append([back[c] for c in s])
            return out
        r = w.call(go3)
        rec["res"], rec["out"] = (r[0], r[1] if r[0] == "ok" else [])
        rec["err"] = "" if r[0] == "ok" else "%s %s" % (r[1], r[2])
        w.record(rec)
        # pickled objects: numbered by what they are equal to
        k = rnd.randrange(len(PICKLED))
        f.write_bytes(pickle.dumps(PICKLED[k], protocol=rnd.randint(0, pickle.HIGHEST_PROTOCOL)))
        nest = rnd.random() < 0.5

        def go4():
            q = Parameters.from_mapping({"a": {"x": str(f)}} if nest else {"x": str(f)})
            v = q.pickled_object_from_file("a.x" if nest else "x")
            return [j + 1 for j, o in enumerate(PICKLED) if type(o) is type(v) and o == v]
        r = w.call(go4)
        w.record(dict(op="pickled", lines=[], kind=str(k + 1), n=k + 1, res=r[0], out=r[1] if r[0] == "ok" else []))
        # empty directories
        d = Path(base, "dir%d" % (i % 10))
        shutil.rmtree(str(d), ignore_errors=True)
        kind = rnd.choice(["none", "file", "empty", "onefile", "onedir", "dot", "link"])
        if kind == "file":
            d.write_text("")
        elif kind != "none":
            d.mkdir()
            if kind == "onefile":
                (d / "x").write_text("")
            elif kind == "onedir":
                (d / "x").mkdir()
            elif kind == "dot":
                (d / ".hidden").write_text("")
            elif kind == "link":
                (d / "l").symlink_to("/nonexistent")
        r = w.call(is_empty_directory, d)
        if d.is_file():
            d.unlink()
        w.record(dict(op="emptydir", lines=[], kind=kind, res=r[0], out=[] if r[0] != "ok" else [1 if r[1] else 0]))
