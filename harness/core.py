"""Orchestration of one check.

A check is a Python function  run(ctx)  in  checks_<area>.py.  It
  * runs TLC on specifications (ctx.tlc), either to model check them, to export what they
    say (states, transitions, expected results) or to judge records of the real code,
  * runs the real code in a separate process (ctx.drive), never in this one,
  * reports disagreements with ctx.violation.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VENV_PY = "/opt/venv/bin/python"


class CheckError(Exception):
    """The machinery itself failed (never the code under test)."""


class TLCResult:
    def __init__(self):
        self.states = 0      # distinct states
        self.generated = 0   # states generated = transitions examined
        self.prints = []     # JSON values printed by the specification
        self.out = ""
        self.rc = 0
        self.error = None    # text of the first TLC error, if any
        self.actions = {}    # action name -> (distinct, taken), with coverage on


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vt-%s-" % prop)
        os.chmod(self.scratch, 0o711)  # drivers run as an unprivileged user in directories of their own
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.parts = []
        self.known = load_known(prop)
        self.known_hit = set()
        self.rnd = random.Random(seed)
        self.seq = 0
        os.makedirs(EVID, exist_ok=True)
        self.replay_dir = os.path.join(EVID, "replay", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, consts=None, workers=1, timeout=800, simulate=None,
            heap="4g", extra=(), count=True, deadlock=False, expect_ok=True, label=None):
        """Run TLC on spec/<module>.tla with the given cfg text (or spec/<cfg> file)."""
        self.seq += 1
        tag = "%02d-%s" % (self.seq, module)
        wd = self.path("tlc-" + tag)
        os.makedirs(wd)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        cfgp = os.path.join(wd, "run.cfg")
        if "\n" in cfg or " " in cfg:
            text = cfg
        else:
            with open(os.path.join(SPEC, cfg)) as f:
                text = f.read()
        if consts:
            text += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
        with open(cfgp, "w") as f:
            f.write(text)
        # the Java side gets few GC threads: checks may run beside other work
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m",
               "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC", "-config", "run.cfg",
               "-metadir", os.path.join(wd, "states"), "-noGenerateSpecTE",
               "-workers", str(workers), "-seed", str(self.seed)]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e["LC_ALL"] = "C.UTF-8"
        e.update({k: str(v) for k, v in (env or {}).items()})
        outp = os.path.join(wd, "out.txt")
        t0 = time.time()
        with open(outp, "wb") as fo:
            p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=fo, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError("TLC on %s timed out after %ss" % (module, timeout))
        r = TLCResult()
        r.rc = rc
        with open(outp, encoding="utf-8", errors="replace") as f:
            r.out = f.read()
        for line in r.out.split("\n"):
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.generated, r.states = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                r.generated = int(m.group(1))
            if line.startswith('"{') or line.startswith('"['):
                try:
                    r.prints.append(json.loads(json.loads(line)))
                except ValueError:
                    raise CheckError("cannot read what %s printed: %s" % (module, line[:300]))
            m = re.match(r"<(\w+) line .*>: (\d+):(\d+)$", line)
            if m:
                r.actions[m.group(1)] = (int(m.group(2)), int(m.group(3)))
            if line.startswith("Error:") and r.error is None:
                i = r.out.index(line)
                r.error = r.out[i:i + 1500]
        if rc != 0 and r.error is None:
            r.error = r.out[-1500:]
        if expect_ok and (rc != 0 or r.error):
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, rc, r.error or r.out[-3000:]))
        if count:
            self.states += r.states
            self.transitions += r.generated
        self.parts.append(dict(tlc=label or module, states=r.states, generated=r.generated,
                               wall_s=round(time.time() - t0, 1)))
        shutil.rmtree(os.path.join(wd, "states"), ignore_errors=True)
        return r

    # ------------------------------------------------------------------ real code
    def drive(self, func, data, timeout=None, mem_gb=4, flags=()):
        """Run harness function  module:name  on the real code in a fresh process."""
        self.seq += 1
        wd = self.path("drive-%02d" % self.seq)
        os.makedirs(wd)
        with open(os.path.join(wd, "in.json"), "w") as f:
            json.dump(data, f)
        if os.getuid() == 0:
            os.chown(wd, 65534, 65534)
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": wd, "TMPDIR": wd, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "VERIF-05:45",
            "PYTHONHASHSEED": str((self.seed * 1009 + self.seq) % 4294967295), "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": os.path.join(wd, "pyc"),
            "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier, "VERIF_REPO": REPO,
        }
        limit = timeout or self.pick(240, 1500)
        t0 = time.time()
        with open(os.path.join(wd, "stdout.txt"), "wb") as fo, open(os.path.join(wd, "stderr.txt"), "wb") as fe:
            p = subprocess.Popen([VENV_PY, "-B", "-X", "faulthandler", *flags, os.path.join(HERE, "worker.py"), func, wd, str(mem_gb)],
                                 cwd=wd, env=env, stdout=fo, stderr=fe,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        res = DriveResult(wd, rc)
        with open(os.path.join(wd, "stderr.txt"), encoding="utf-8", errors="replace") as f:
            res.stderr = f.read()
        self.parts.append(dict(drive=func, rc=rc, wall_s=round(time.time() - t0, 1), **res.stats))
        self.evaluations += res.stats.get("evaluations", 0)
        if rc == 3:
            raise CheckError("harness failure in %s:\n%s" % (func, res.stderr[-3000:]))
        if rc == 4:
            self.violation("the code under test cannot be used: " + res.stderr.strip().splitlines()[-1],
                           dict(driver=func, stderr=res.stderr[-3000:]))
        elif rc != 0:
            self.violation("the real code ended the driver (%s) while running %s" % (rc, res.current),
                           dict(driver=func, rc=str(rc), current=res.current, stderr=res.stderr[-3000:]))
        for m in res.mismatches:
            self.violation(m.get("what", "mismatch"), m)
        return res

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, detail, key=None):
        key = key or (detail.get("key") if isinstance(detail, dict) else None)
        if key and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
            return
        self.violations.append(dict(what=what, detail=detail))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def judge(self, module, records, consts=None, label=None, what=None, extra_env=None, chunk=20000,
              cfg=None, timeout=800, parallel=4, heap="4g"):
        """Have TLC judge records of the real code: the module's ASSUME/Init evaluates  Verdict(record)
        for each and prints [i |-> index, clause |-> failing clause] for every rejected one."""
        from concurrent.futures import ThreadPoolExecutor
        chunks = [records[i:i + chunk] for i in range(0, len(records), chunk)]
        base = 0
        jobs = []
        for n, ch in enumerate(chunks):
            self.seq += 1
            fn = self.path("rec-%03d.ndjson" % self.seq)
            with open(fn, "w") as f:
                for r in ch:
                    f.write(json.dumps(r) + "\n")
            jobs.append((base, ch, fn))
            base += len(ch)

        def one(job):
            base, ch, fn = job
            env = dict(extra_env or {})
            env["RECORDS"] = fn
            return job, self.tlc(module, cfg or "INIT Init\nNEXT Next\n", env=env, consts=consts, label=label,
                                 timeout=timeout, heap=heap)
        if not jobs:
            raise CheckError("no records to judge for %s" % module)
        with ThreadPoolExecutor(max_workers=parallel) as ex:
            results = list(ex.map(one, jobs))
        bad = 0
        for (base, ch, fn), r in results:
            done = False
            for p in r.prints:
                if "judged" in p:
                    done = True
                    if p["judged"] != len(ch):
                        raise CheckError("%s judged %s of %s records" % (module, p["judged"], len(ch)))
                elif "bad" in p:
                    bad += 1
                    rec = ch[p["bad"] - 1]
                    self.violation("%s: record of the real code rejected by %s (clause %s): %s" % (
                        what or label or module, module, p.get("clause"), json.dumps(rec)[:600]),
                        dict(record=rec, clause=p.get("clause"), spec=module, expected=p.get("expected"),
                             key=rec.get("key") if isinstance(rec, dict) else None))
            if not done:
                raise CheckError("%s gave no verdict count:\n%s" % (module, r.out[-1500:]))
        self.traces += len(records)
        return bad

    # ---- histories: records with op "new" start a history
    @staticmethod
    def split_traces(records, start="new"):
        out = []
        for r in records:
            if r["op"] == start:
                out.append([])
            out[-1].append(r)
        return out

    def judge_traces(self, module, records, consts=None, what=None, label=None, start="new", extra_env=None,
                     chunk=6000, cfg=None, timeout=800, parallel=4):
        """As judge, for a trace specification: each history (from a start record to the next) gets a verdict."""
        from concurrent.futures import ThreadPoolExecutor
        traces = self.split_traces(records, start)
        if not traces:
            raise CheckError("no histories to judge for %s" % module)
        chunks, cur = [], []
        for t in traces:
            if cur and len(cur) + len(t) > chunk:
                chunks.append(cur)
                cur = []
            cur = cur + t
        chunks.append(cur)
        jobs = []
        for ch in chunks:
            self.seq += 1
            fn = self.path("trace-%03d.ndjson" % self.seq)
            with open(fn, "w") as f:
                for r in ch:
                    f.write(json.dumps(r) + "\n")
            jobs.append((ch, fn))

        def one(job):
            env = dict(extra_env or {})
            env["RECORDS"] = job[1]
            return job, self.tlc(module, cfg or "INIT TInit\nNEXT TNext\n", env=env, consts=consts, label=label,
                                 timeout=timeout)
        with ThreadPoolExecutor(max_workers=parallel) as ex:
            results = list(ex.map(one, jobs))
        for (ch, fn), r in results:
            done = False
            for p in r.prints:
                if "judged" in p:
                    done = True
                    if p["judged"] != len(ch):
                        raise CheckError("%s judged %s of %s records" % (module, p["judged"], len(ch)))
                elif "bad" in p:
                    i = p["bad"] - 1
                    j = i
                    while ch[j]["op"] != start:
                        j -= 1
                    self.violation("%s: %s rejects step %d of a recorded history (clause %s): %s" % (
                        what or label or module, module, i - j, p.get("clause"), json.dumps(ch[i])[:500]),
                        dict(history=ch[j:i + 1], clause=p.get("clause"), spec=module, expected=p.get("expected"),
                             key=ch[j].get("key")))
            if not done:
                raise CheckError("%s gave no verdict count:\n%s" % (module, r.out[-1500:]))
        self.traces += len(traces)

    def binding_traces(self, module, records, corrupt, consts=None, start="new", extra_env=None, n=25, label=None,
                       cfg=None):
        """Corrupt one observation in each of n histories; every one must be rejected."""
        import random
        rnd = random.Random(self.seed)
        traces = self.split_traces(records, start)
        rnd.shuffle(traces)
        out, want = [], []
        for t in traces:
            if len(want) >= n:
                break
            t = json.loads(json.dumps(t))
            idx = list(range(1, len(t)))
            rnd.shuffle(idx)
            for i in idx:
                c = corrupt(t[i], rnd)
                if c is not None:
                    t[i] = c
                    want.append(len(out) + i + 1)
                    out += t
                    break
        if not want:
            raise CheckError("binding test for %s produced nothing" % module)
        self.seq += 1
        fn = self.path("corrupt-%03d.ndjson" % self.seq)
        with open(fn, "w") as f:
            for r in out:
                f.write(json.dumps(r) + "\n")
        env = dict(extra_env or {})
        env["RECORDS"] = fn
        r = self.tlc(module, cfg or "INIT TInit\nNEXT TNext\n", env=env, consts=consts, count=False,
                     label=(label or module) + " (binding test)")
        rej = {p["bad"] for p in r.prints if "bad" in p}
        self.notes.setdefault("binding_tests", []).append(
            dict(spec=label or module, corrupted=len(want), rejected=len(rej & set(want))))
        if not set(want) <= rej:
            i = sorted(set(want) - rej)[0]
            raise CheckError("binding test: %s accepted a corrupted history step: %s" % (module, json.dumps(out[i - 1])[:800]))

    def binding_test(self, module, records, corrupt, consts=None, extra_env=None, n=40, label=None, cfg=None):
        """Show that the verdicts depend on what was recorded: corrupt records and expect rejection."""
        import random
        rnd = random.Random(self.seed)
        picked = [records[rnd.randrange(len(records))] for _ in range(min(n, len(records)))]
        bads = []
        for r in picked:
            c = corrupt(json.loads(json.dumps(r)), rnd)
            if c is not None:
                bads.append(c)
        if not bads:
            raise CheckError("binding test for %s produced nothing" % module)
        self.seq += 1
        fn = self.path("corrupt-%03d.ndjson" % self.seq)
        with open(fn, "w") as f:
            for r in bads:
                f.write(json.dumps(r) + "\n")
        env = dict(extra_env or {})
        env["RECORDS"] = fn
        r = self.tlc(module, cfg or "INIT Init\nNEXT Next\n", env=env, consts=consts, count=False,
                     label=(label or module) + " (binding test)")
        rej = {p["bad"] for p in r.prints if "bad" in p}
        self.notes.setdefault("binding_tests", []).append(
            dict(spec=label or module, corrupted=len(bads), rejected=len(rej)))
        if len(rej) != len(bads):
            raise CheckError("binding test: %s accepted %d of %d corrupted records, e.g. %s" % (
                module, len(bads) - len(rej), len(bads),
                json.dumps([b for i, b in enumerate(bads, 1) if i not in rej][0])[:800]))

    def finish(self):
        wall = round(time.time() - self.t0, 1)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                evaluations_of_real_code=self.evaluations,
                                samples=self.samples or [dict(note="no sample recorded")],
                                parts=self.parts, **self.notes),
                  assumptions=self.assumptions, wall_s=wall,
                  violations=[v["what"][:500] for v in self.violations][:20])
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            for n, v in enumerate(self.violations[:10]):
                rp = os.path.join(self.replay_dir, "%02d.json" % n)
                with open(rp, "w") as f:
                    json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **v), f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("   " + v["what"][:700].replace("\n", " "))
            if len(self.violations) > 10:
                print("   ... and %d more" % (len(self.violations) - 10))
        else:
            print("OK property=%s tier=%s states=%d transitions=%d traces=%d evaluations=%d wall=%.1fs" % (
                self.prop, self.tier, self.states, self.transitions, self.traces, self.evaluations, wall))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


class DriveResult:
    def __init__(self, wd, rc):
        self.wd, self.rc = wd, rc
        self.stderr = ""
        self.mismatches = read_ndjson(os.path.join(wd, "mismatches.ndjson"))
        self.records = read_ndjson(os.path.join(wd, "records.ndjson"))
        self.stats = {}
        sp = os.path.join(wd, "stats.json")
        if os.path.exists(sp):
            with open(sp) as f:
                self.stats = json.load(f)
        self.current = None
        cp = os.path.join(wd, "current.txt")
        if os.path.exists(cp):
            with open(cp, errors="replace") as f:
                self.current = f.read()


def read_ndjson(p):
    out = []
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                if line.endswith("\n"):
                    out.append(json.loads(line))
    return out


def load_known(prop):
    """known_findings.txt: lines  known: property=<id> key=<key> <what fails>
    and  fixed: property=<id> <commit> <what failed>  (the latter suppress nothing)"""
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out
