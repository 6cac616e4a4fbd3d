"""Runs one driver function against the real code in its own process.

usage: worker.py module:function workdir mem_gb
Exit codes: 0 done, 3 harness failure, 4 the code under test cannot be imported,
5 the code gave an answer the driver could not even handle.
"""
import importlib
import json
import os
import random
import resource
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class OpTimeout(BaseException):
    pass


def _alarm(*_):
    raise OpTimeout()


class Worker:
    def __init__(self, wd):
        self.wd = wd
        with open(os.path.join(wd, "in.json")) as f:
            self.input = json.load(f)
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.rnd = random.Random(self.seed * 1000003 + 17)
        self._mm = open(os.path.join(wd, "mismatches.ndjson"), "w", encoding="utf-8")
        self._rec = open(os.path.join(wd, "records.ndjson"), "w", encoding="utf-8")
        self.n_mm = 0
        self.evaluations = 0
        self.stats = {}
        self._cur = open(os.path.join(wd, "current.txt"), "w", encoding="utf-8", errors="backslashreplace")

    def scratch(self, name):
        p = os.path.join(self.wd, name)
        os.makedirs(p, exist_ok=True)
        return p

    def doing(self, what):
        self._cur.seek(0)
        self._cur.truncate()
        self._cur.write(str(what)[:2000])
        self._cur.flush()

    def mismatch(self, what, **detail):
        self.n_mm += 1
        if self.n_mm <= 200:
            detail["what"] = str(what)[:1500]
            self._mm.write(json.dumps(detail, default=repr) + "\n")
            self._mm.flush()

    def full(self):
        """Enough disagreements recorded: the driver may stop."""
        return self.n_mm >= 50

    def record(self, rec):
        self._rec.write(json.dumps(rec) + "\n")

    def call(self, fn, *a, seconds=20, **k):
        """-> ("ok", value) | ("err", exception type name, exception) | ("hang",)"""
        self.evaluations += 1
        old = signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            v = fn(*a, **k)
            return ("ok", v)
        except OpTimeout:
            return ("hang", "timeout", None)
        except (KeyboardInterrupt,):
            raise
        except BaseException as e:  # SystemExit, RecursionError, MemoryError included
            return ("err", type(e).__name__, e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def close(self):
        self.stats["evaluations"] = self.evaluations
        self.stats["mismatches"] = self.n_mm
        self._mm.close()
        self._rec.close()
        with open(os.path.join(self.wd, "stats.json"), "w") as f:
            json.dump(self.stats, f)


NOBODY = 65534


def drop_privileges():
    """The code under test runs as an unprivileged user with files of its own, when that user can
    read what it needs: an escaped deletion then reaches nothing."""
    if os.getuid() != 0:
        return "not root"

    def drop():
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            drop()
            import attr  # the last of the dependencies to look for
            ok = all(os.access(p, os.R_OK | os.X_OK) for p in (HERE, REPO, os.path.join(REPO, "vistautils"), os.path.dirname(attr.__file__)))
            ok = ok and all(os.access(os.path.join(d, f), os.R_OK) for d in (HERE, os.path.join(REPO, "vistautils")) for f in os.listdir(d))
            with open(os.path.join(sys.argv[2], "probe"), "w"):
                pass
            os.unlink(os.path.join(sys.argv[2], "probe"))
            code = 0 if ok else 1
        except BaseException:
            pass
        os._exit(code)
    if os.waitpid(pid, 0)[1] != 0:
        return "root"
    drop()
    return "nobody"


def main():
    func, wd, mem = sys.argv[1], sys.argv[2], float(sys.argv[3])
    user = drop_privileges()
    lim = int(mem * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _alarm)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    try:
        import vistautils
        assert os.path.realpath(vistautils.__file__).startswith(os.path.realpath(REPO) + os.sep), vistautils.__file__
    except AssertionError:
        traceback.print_exc()
        return 3
    except BaseException:
        traceback.print_exc()
        return 4
    mod, name = func.split(":")
    try:
        m = importlib.import_module(mod)
    except BaseException as e:
        traceback.print_exc()
        tb = e.__traceback__
        files = []
        while tb:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        if isinstance(e, SyntaxError) and e.filename:
            files.append(e.filename)
        # an import failure inside the repository is the repository's failure
        if any(os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep) for f in files) \
                or (isinstance(e, ImportError) and "vistautils" in str(e)):
            return 4
        return 3
    # From here on the place the program runs in has no wider encoding than ASCII to offer for
    # files opened without naming one; names of files and the standard streams stay in UTF-8.
    import locale
    locale.setlocale(locale.LC_CTYPE, "C")
    w = Worker(wd)
    w.user = w.stats["user"] = user
    try:
        getattr(m, name)(w)
    except BaseException as e:
        traceback.print_exc()
        try:
            w.close()
        except BaseException:
            pass
        # Drivers run through on the unchanged tree, so one that stops has met an answer the
        # code never gives there; only want of resources is nobody's answer.
        return 3 if isinstance(e, (MemoryError, OpTimeout, KeyboardInterrupt)) or getattr(e, "errno", 0) in (12, 24, 28) else 5
    w.close()
    return 0


if __name__ == "__main__":
    sys.exit(main())
