"""Drivers for the store-to-store scripts."""
import io
import json
import os
import shutil
import subprocess
import sys
import tarfile
import zipfile
from contextlib import redirect_stdout
from pathlib import Path

from vistautils.key_value import KeyValueSink, KeyValueSource
from vistautils.parameters import Parameters
from vistautils.scripts import (directory_to_key_value_store, downsample_key_value_store, join_key_value_stores,
                                split_key_value_store, tar_gz_to_zip)

REPO = os.environ.get("VERIF_REPO", "/repo")
KEYS = ["a", "B", "c.txt", "\u00e9\u4e2d", "x y", "0", "k1", "k2", "zz", "~", "-n", "A", "%s", "10", "9", "a.b.c", "Z" * 40, "k10",
        "none", "_slices", " lead", "trail ", "\ttab", "wide\u3000", "l\u2028r", "x\x1cy", "#k", "null", "e\u0301x", "\ufb01"]
MANY = ["m%d" % i for i in range(120)]
PLAIN = [k for k in KEYS if k == k.strip()]
VALS = [b"v1", b"", bytes(range(256)), b"\xff", b"x" * 5000, b"\r\n", b"0", b"nul\0", "\u00e9".encode(), b"v2", b"0123456789abcde" * 75000]


class Env:
    def __init__(self, w, base):
        self.w, self.rnd, self.base = w, w.rnd, base
        self.n = 0

    def fresh(self):
        self.n += 1
        p = Path(self.base, "e%d" % (self.n % 8))
        if p.exists():
            shutil.rmtree(str(p))
        p.mkdir()
        return p

    def setup(self, mx=9):
        rnd = self.rnd
        self.keys = [None] + rnd.sample(KEYS, len(KEYS))
        n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, mx])
        if mx != 8 and (self.n % 50 == 11 or rnd.random() < 0.01):
            n = rnd.choice([30, 70, 140, 140])
            self.keys += MANY
        return [[k, rnd.randint(1, len(VALS) - (n > 20))] for k in rnd.sample(range(1, len(self.keys)), n)]

    def write(self, p, items):
        with KeyValueSink.zip_bytes_sink(p) as s:
            for k, v in items:
                s.put(self.keys[k], VALS[v - 1])

    def vid(self, v):
        return VALS.index(v) + 1 if type(v) is bytes and v in VALS else -77

    def kid(self, k):
        return self.keys.index(k) if k in self.keys[1:] else -77

    def read(self, p):
        with KeyValueSource.zip_bytes_source(p) as s:
            ks = list(s.keys())
            out = [[self.kid(k), self.vid(s.get(k))] for k in ks]
        with zipfile.ZipFile(str(p)) as z:
            names = [n for n in z.namelist() if n != "__keys"]
        if sorted(names) != sorted(ks):
            out.append([-70, len(names)])
        return out

    def input_ns(self, p, items):
        """The input namespace, as a zip or as a doc-id-to-file map."""
        # (the ids of a document map have no white space around them)
        if self.rnd.random() < 0.7 or any(self.keys[k] not in PLAIN for k, _ in items):
            self.write(p / "in.zip", items)
            return {"type": "zip", "path": str(p / "in.zip")}
        d = p / "files"
        d.mkdir()
        lines = []
        for i, (k, v) in enumerate(items):
            (d / str(i)).write_bytes(VALS[v - 1])
            lines.append("%s\t%s\n" % (self.keys[k], d / str(i)))
        (p / "map").write_text("".join(lines), encoding="utf-8")
        return {"type": "file-map", "path": str(p / "map")}


def snapshot(paths):
    out = {}
    for p in paths:
        if p.is_file():
            out[str(p)] = p.read_bytes()
        elif p.is_dir():
            for r, _, fs in os.walk(str(p)):
                for f in fs:
                    q = os.path.join(r, f)
                    with open(q, "rb") as fh:
                        out[q] = fh.read()
    return out


def rec0(**k):
    r = dict(input=[], outs=[], n=0, lists=[], ins=[], exh=False, inputKept=True, repeatable=True, res="ok")
    r.update(k)
    return r


def child(args, seed=None):
    """A script in a process of its own."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    if seed is not None:
        env["PYTHONHASHSEED"] = str(seed)
    r = subprocess.run([sys.executable, "-W", "ignore"] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, timeout=60)
    if r.returncode != 0:
        raise RuntimeError("the script ended with %d: %s" % (r.returncode, r.stderr[-300:]))


def run(e, p, mod, params, chance=0.02):
    """A script with parameters: here, or as a program with a parameter file."""
    if e.rnd.random() > chance:
        mod.main(Parameters.from_mapping(params))
        return
    (p / "params.yaml").write_text(json.dumps(params), encoding="utf-8")
    child(["-m", mod.__name__, str(p / "params.yaml")], seed=e.rnd.randint(0, 4000000000))


def refused(w, e, rnd):
    """Requests which name no script's work: nothing may change the input."""
    p = e.fresh()
    items = e.setup()
    ns = e.input_ns(p, items)
    before = snapshot([p / "in.zip", p / "files", p / "map"])
    (p / "keys").write_text("\n".join(e.keys[k] for k, _ in items), encoding="utf-8")
    explicit_ = {"a": {"keys_file": str(p / "keys"), "output_file": str(p / "o.zip")}}
    ind = p / "dir"
    ind.mkdir()
    (ind / "x").write_bytes(b"x")
    out = {"type": "zip", "path": str(p / "out.zip")}
    z = rnd.randint(0, 9)
    mod, params = [
        (split_key_value_store, {"input": ns, "output_dir": str(p / "out")}),
        (split_key_value_store, {"input": ns, "output_dir": str(p / "out"), "num_slices": 2, "explicit_split": explicit_}),
        (split_key_value_store, {"input": ns, "output_dir": str(p / "out"), "num_slices": rnd.choice([0, -1, "2", 1.5])}),
        (split_key_value_store, {"input": ns, "num_slices": 2}),
        (split_key_value_store, {"input": ns, "explicit_split": {"a": {"keys_file": str(p / "nokeys"), "output_file": str(p / "o.zip")}}}),
        (split_key_value_store, {"input": {"type": "zip", "path": str(p / "absent.zip")}, "output_dir": str(p / "out"), "num_slices": 2}),
        (directory_to_key_value_store, {"input_directory": str(ind), "output": out, "key_function": rnd.choice(["Identity", "strip", "", "strip_all"])}),
        (directory_to_key_value_store, {"input_directory": str(p / "absent"), "output": out}),
        (downsample_key_value_store, {"input": ns, "num_to_sample": rnd.choice([0, -2, "3"]), "output_zip_path": str(p / "out.zip")}),
        (join_key_value_stores, {"input_store_list_file": str(p / "absent"), "output": out}),
    ][z]
    rec = rec0(op="refused", input=items, n=z)
    r = w.call(run, e, p, mod, params)
    rec["inputKept"] = snapshot([p / "in.zip", p / "files", p / "map"]) == before
    finish(w, rec, r)


def finish(w, rec, out):
    if out[0] != "ok":
        rec["res"] = "err"
        rec["how"] = "%s: %s" % (out[1], str(out[2])[:200])
    w.record(rec)


def scripts_record(w):
    e = Env(w, w.scratch("scripts"))
    rnd = w.rnd
    rounds = w.input["rounds"]
    os.chdir(w.scratch("cwd"))
    with open(os.devnull, "w", encoding="utf-8") as null, redirect_stdout(null):
        for i in range(rounds):
            for f in (even, explicit, join, sample, directory, tar, refused) + ((chances,) if i % 16 == 3 else ()):
                w.doing("script %s" % f.__name__)
                f(w, e, rnd)
            if w.full():
                return


def even(w, e, rnd):
    p = e.fresh()
    items = e.setup(12)
    n = rnd.randint(1, 6) if rnd.random() < 0.8 else rnd.choice([10, 11, 12, 13, 25, 101])
    ns = e.input_ns(p, items)
    before = snapshot([p / "in.zip", p / "files", p / "map"])
    params = {"input": ns, "num_slices": n, "output_dir": str(p / "out")}
    if rnd.random() < 0.5:
        params["random_seed"] = rnd.randint(1, 1000)
    rec = rec0(op="even", input=items, n=n)

    def go():
        run(e, p, split_key_value_store, params)
        listed = (p / "out" / "_slices.txt").read_text(encoding="utf-8").split("\n")
        rec["outs"] = [e.read(Path(x)) for x in listed]
        zips = sorted(str(x) for x in (p / "out").glob("*.zip"))
        if sorted(listed) != zips or len(set(listed)) != len(listed):
            rec["outs"].append([[-1, -1]])
        # (in another process strings have other hashes)
        run(e, p, split_key_value_store, params, 0.1)
        again = [e.read(Path(x)) for x in listed]
        rec["repeatable"] = [sorted(x) for x in again] == [sorted(x) for x in rec["outs"]]
        rec["inputKept"] = snapshot([p / "in.zip", p / "files", p / "map"]) == before
    finish(w, rec, w.call(go))


def explicit(w, e, rnd):
    p = e.fresh()
    items = e.setup()
    ks = [k for k, _ in items]
    nl = rnd.randint(1, 4) if rnd.random() < 0.9 else rnd.choice([9, 11, 17, 70])
    lists = [[] for _ in range(nl)]
    for k in ks:
        if rnd.random() < 0.9:
            lists[rnd.randrange(nl)].append(k)
            if rnd.random() < 0.05:
                lists[rnd.randrange(nl)].append(k)
    if rnd.random() < 0.15:
        lists[rnd.randrange(nl)].append(rnd.randint(1, len(KEYS)))
    # an absent list may be empty; the same key twice in a file means the same as once
    exh = rnd.random() < 0.6
    ns = e.input_ns(p, items)
    before = snapshot([p / "in.zip", p / "files", p / "map"])
    split = {}
    for i, l in enumerate(lists):
        text = "\n".join(e.keys[k] for k in l) + rnd.choice(["", "\n", "\n\n"])
        (p / ("keys%d" % i)).write_text(text, encoding="utf-8")
        split["s%d" % i] = {"keys_file": str(p / ("keys%d" % i)), "output_file": str(p / "o" / ("out%d.zip" % i))}
    params = {"input": ns, "explicit_split": split}
    if not exh or rnd.random() < 0.3:
        params["must_be_exhaustive"] = exh
    rec = rec0(op="explicit", input=items, lists=[sorted(set(l)) for l in lists], exh=exh)

    def go():
        run(e, p, split_key_value_store, params)
        rec["outs"] = [e.read(p / "o" / ("out%d.zip" % i)) for i in range(nl)]
        rec["inputKept"] = snapshot([p / "in.zip", p / "files", p / "map"]) == before
    finish(w, rec, w.call(go))


def join(w, e, rnd):
    p = e.fresh()
    items = e.setup()
    ni = rnd.randint(0, 4) if rnd.random() < 0.9 else rnd.choice([9, 11, 17, 70])
    if len(items) > 20:     # crowded stores
        ni = rnd.choice([1, 1, 2, ni])
    ins = [[] for _ in range(ni)]
    for it in items:
        if ni:
            ins[rnd.randrange(ni)].append(it)
    if ni > 1 and items and rnd.random() < 0.35:
        # the same key in two stores, perhaps with the same value
        k, v = rnd.choice(items)
        tgt = rnd.choice([i for i in range(ni) if k not in [a for a, _ in ins[i]]] or [0])
        if k not in [a for a, _ in ins[tgt]]:
            ins[tgt].append([k, rnd.choice([v, rnd.randint(1, len(VALS))])])
    paths = []
    # the stores may be files of the same name in different directories, or without the usual extension
    z = rnd.randint(0, 3)
    for i, its in enumerate(ins):
        q = p / [("in%d.zip" % i), "d%d/in.zip" % i, "d/%s/in.zip" % ("x" * i + "y"), "in.%d" % i][z]
        q.parent.mkdir(parents=True, exist_ok=True)
        e.write(q, its)
        paths.append(str(q))
    before = snapshot([Path(x) for x in paths])
    (p / "list").write_text("\n".join((["# a comment", ""] if rnd.random() < 0.3 else []) + paths) + "\n", encoding="utf-8")
    # (the keys of a directory store with an index have no white space around them)
    kind = rnd.choice(["zip", "directory"]) if all(e.keys[k] in PLAIN for its in ins for k, _ in its) else "zip"
    out = p / "out.zip"
    if kind == "directory":
        out = p / "outdir"
        out.mkdir()
    params = {"input_store_list_file": str(p / "list"), "output": {"type": kind, "path": str(out)}}
    rec = rec0(op="join", ins=ins)

    def go():
        run(e, p, join_key_value_stores, params)
        if kind == "zip":
            rec["outs"] = [e.read(out)]
        else:
            with KeyValueSource.binary_from_doc_id_to_file_map(out / "_index") as s:
                rec["outs"] = [[[e.kid(k), e.vid(v)] for k, v in s.items()]]
        rec["inputKept"] = snapshot([Path(x) for x in paths]) == before
    finish(w, rec, w.call(go))


def sample(w, e, rnd):
    p = e.fresh()
    items = e.setup(14)
    n = rnd.choice([1, 1, 2, 3, 5, 8, 20, 10 ** 6])
    ns = e.input_ns(p, items)
    before = snapshot([p / "in.zip", p / "files", p / "map"])
    params = {"input": ns, "num_to_sample": n, "output_zip_path": str(p / "sub" / "out.zip")}
    if rnd.random() < 0.5:
        params["random_seed"] = rnd.randint(0, 1000)
    rec = rec0(op="sample", input=items, n=n)

    def go():
        run(e, p, downsample_key_value_store, params)
        rec["outs"] = [e.read(p / "sub" / "out.zip")]
        run(e, p, downsample_key_value_store, params, 0.15)
        rec["repeatable"] = sorted(e.read(p / "sub" / "out.zip")) == sorted(rec["outs"][0])
        rec["inputKept"] = snapshot([p / "in.zip", p / "files", p / "map"]) == before
    finish(w, rec, w.call(go))


def chances(w, e, rnd):
    """With other seeds other items are chosen: in sixty of them every item is chosen by some (all the same by chance: less
    than one in a thousand billion)."""
    p = e.fresh()
    items = []
    while len(items) < 4:
        items = e.setup(8)
    items = items[:8]
    e.write(p / "in.zip", items)
    ns = {"type": "zip", "path": str(p / "in.zip")}
    base = rnd.randint(1, 100000)
    which = rnd.choice(["sample", "slice"])
    n = rnd.randint((len(items) + 1) // 2, len(items) - 1)
    rec = rec0(op="chances", input=items)

    def go():
        for i in range(60):
            if which == "sample":
                run(e, p, downsample_key_value_store, {"input": ns, "num_to_sample": n, "random_seed": base + i,
                                                       "output_zip_path": str(p / "out.zip")}, 0)
                rec["outs"].append(e.read(p / "out.zip"))
            else:
                run(e, p, split_key_value_store, {"input": ns, "num_slices": 2, "random_seed": base + i, "output_dir": str(p / "out")}, 0)
                rec["outs"].append(e.read(p / "out" / ("%d.zip" % (base % 2))))
    finish(w, rec, w.call(go))


def directory(w, e, rnd):
    p = e.fresh()
    items = e.setup()
    kf = rnd.choice([None, "identity", "strip_one_extension"])
    ind = p / "in"
    ind.mkdir()
    nest = rnd.random() < 0.4
    rec = rec0(op="copy")
    want = []
    for k, v in items:
        name = e.keys[k]
        key = name
        if kf == "strip_one_extension":
            stem = "".join(c for c in name if c not in ".") or "q"
            name = stem + rnd.choice(["", ".txt", ".tar.gz"])
            key = stem + (".tar" if name.endswith(".tar.gz") else "")
        elif rnd.random() < 0.2:
            # names which some programs pass over
            key = name = rnd.choice([".%s", "%s~", "_%s", "__%s__", "#%s#", "%s.bak", "%s.tmp", "%s.zip", "%s.pyc", "..%s", " %s", "%s ", "%s.", "%s.gz"]) % name
        d = ind
        if nest and rnd.random() < 0.5:
            d = ind / rnd.choice(["sub", "sub", ".hidden", "__pycache__", "dd/b/c/d", "s p", "in", "x.zip", "_"])
            d.mkdir(parents=True, exist_ok=True)
        (d / name).write_bytes(VALS[v - 1])
        want.append([key, v])
    names = sorted({k for k, _ in want})
    if len(names) != len(want):
        return
    e.keys = [None] + names
    rec["input"] = [[e.keys.index(k), v] for k, v in want]
    before = snapshot([ind])
    params = {"input_directory": str(ind), "output": {"type": "zip", "path": str(p / "out.zip")}}
    if kf:
        params["key_function"] = kf

    def go():
        run(e, p, directory_to_key_value_store, params)
        rec["outs"] = [e.read(p / "out.zip")]
        rec["inputKept"] = snapshot([ind]) == before
    finish(w, rec, w.call(go))


def tar(w, e, rnd):
    p = e.fresh()
    items = e.setup()
    ext = rnd.choice([".tar.gz", ".tgz", ".tar", ".gz", ""])
    stem = rnd.choice(["corpus", "a.tar.b", "x"])
    tp = p / (stem + ext)
    mode = "w" if ext in (".tar", "") else "w:gz"
    names = {}
    with tarfile.open(str(tp), mode) as t:
        if rnd.random() < 0.6:
            i = tarfile.TarInfo("d")
            i.type = tarfile.DIRTYPE
            i.mtime = 1500000000
            i.mode = 0o755
            t.addfile(i)
        for k, v in items:
            nm = e.keys[k]
            if rnd.random() < 0.4:
                nm = "d/" + nm
            names[nm] = k
            i = tarfile.TarInfo(nm)
            i.size = len(VALS[v - 1])
            i.mtime = 1500000000
            t.addfile(i, io.BytesIO(VALS[v - 1]))
    want = p / (stem + ("" if ext in (".tar.gz", ".tgz", ".tar") else ext) + ".zip")
    if rnd.random() < 0.3:
        want.write_bytes(b"old stuff")
    before = snapshot([tp])
    dont = rnd.random() < 0.4
    # --omit-large-files leaves out what is larger than the cutoff (given in gigabytes)
    args, cut = [], -1
    if not dont and rnd.random() < 0.6:
        near = rnd.choice([0, 1, 2, 3, 4, 255, 256, 257, 4999, 5000, 5001, 6000])
        if rnd.random() < 0.8:
            args.append("--omit-large-files")
            cut = 2000000000
        if rnd.random() < 0.8:
            args += ["--large-file-cutoff", repr(near / 1e9)]
            if cut >= 0 and (near / 1e9) * 1e9 == near:
                cut = near
            elif cut >= 0:
                return
    rec = rec0(op="tar", input=items, dont_stream=dont, cut=cut, sizes=[len(v) for v in VALS], args=args)
    cwd = p / "cwd"
    cwd.mkdir()
    old = os.getcwd(), sys.argv

    def go():
        os.chdir(str(cwd))
        sys.argv = ["tar_gz_to_zip.py", str(tp)] + (["--dont-stream"] if dont else []) + args
        try:
            if rnd.random() < 0.015:
                child(["-m", "vistautils.scripts.tar_gz_to_zip"] + sys.argv[1:])
            else:
                tar_gz_to_zip.main()
        finally:
            os.chdir(old[0])
            sys.argv = old[1]
        with zipfile.ZipFile(str(want)) as z:
            rec["outs"] = [[[names.get(n, -77), e.vid(z.read(n))] for n in z.namelist()]]
        rec["inputKept"] = snapshot([tp]) == before
    finish(w, rec, w.call(go))
