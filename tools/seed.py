#!/usr/bin/env python3
"""Work on planted bugs.
  seed.py make FILE.py [ID...]   make /verif/seeded/<id> from definitions: S(id, property, needs, breaks, edits, demo)
  seed.py try ID [CHECK...]      tests, demo and the checks (by default of its property) in a scratch copy;
                                 what came of it is kept in tools/seed_results.json
  seed.py table                  put the table of planted bugs into DESIGN.md
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "seeded")
RESULTS = os.path.join(V, "tools", "seed_results.json")
SH = '#!/bin/bash\n# run with cwd = the repository\nset -u\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nW=$(mktemp -d) || exit 3\ntrap \'rm -rf "$W"\' EXIT\ncp "$D/demo.py" "$W/demo.py"\nSCRATCH="$W" timeout 120 /opt/venv/bin/python "$W/demo.py"\n'


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    os.chmod(d, 0o755)
    run(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def make(f, ids):
    defs = []
    exec(open(f).read(), dict(S=lambda *a: defs.append(a)))
    for (i, prop, needs, breaks, edits, demo) in defs:
        if ids and i not in ids:
            continue
        d, r = copy()
        try:
            for (name, old, new) in edits:
                p = os.path.join(r, name)
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, "edit does not apply once:", s.count(old), repr(old)[:80])
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
                o = os.path.join(OUT, i)
                os.makedirs(o, exist_ok=True)
                open(o + "/patch.diff", "w").write(diff)
                open(o + "/demo.sh", "w").write(SH)
                os.chmod(o + "/demo.sh", 0o755)
                open(o + "/demo.py", "w").write(demo.strip() + "\n")
                json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)


def attempt(i, checks):
    d, r = copy()
    o = os.path.join(OUT, i)
    meta = json.load(open(o + "/meta.json"))
    res = dict(id=i)
    try:
        a = run(["bash", o + "/demo.sh"], cwd=r)
        res["demo_clean"] = a.returncode
        if a.returncode:
            print(a.stdout[-1500:])
        a = run(["git", "-C", r, "apply", o + "/patch.diff"])
        if a.returncode:
            print(a.stdout)
            return
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0", LANG="C.UTF-8", HOME="/root")
        a = run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "--tb=line", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=300", "--basetemp=" + d + "/tmp",
                 "--junitxml=" + d + "/j.xml", "-o", "junit_family=xunit2"], cwd=r, env=env)
        run(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/j.xml"])
        passed = set(json.load(open(d + "/o.json"))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res["tests_broken"] = sorted(stable - passed)
        a = run(["bash", o + "/demo.sh"], cwd=r)
        res["demo_patched"] = a.returncode
        res["demo_says"] = a.stdout.strip().splitlines()[-1:] if a.stdout.strip() else []
        for c in checks or [meta["property"]]:
            a = run([V + "/bin/check", c], env=dict(os.environ, VERIF_REPO=r))
            first = [l for l in a.stdout.splitlines() if l.startswith("VIOLATION")]
            j = a.stdout.splitlines().index(first[0]) if first else 0
            res["check_" + c] = (a.returncode, a.stdout.splitlines()[j + 1][:300] if first else a.stdout[-300:])
    finally:
        shutil.rmtree(d)
    ok = res["demo_clean"] == 0 and not res["tests_broken"] and res["demo_patched"] not in (0, 3, 124)
    print(("VALID " if ok else "INVALID ") + json.dumps(res))
    if ok:
        keep(i, {c: clause(res["check_" + c]) for c in checks or [meta["property"]]})


def clause(r):
    if r[0] != 1:
        return "NOT CAUGHT"
    m = re.search(r"\(clause ([^)]*)\)", r[1])
    return "recorded execution rejected: " + m.group(1) if m else "behaviour of the model not reproduced by the code" if "specification says" in r[1] else "driver: " + r[1].strip()[:60]


def keep(i, found):
    with open(RESULTS + ".lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        d = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
        d.setdefault(i, {}).update(found)
        json.dump(d, open(RESULTS, "w"), indent=1, sort_keys=True)


def table():
    d = json.load(open(RESULTS))
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(OUT)):
        m = json.load(open(os.path.join(OUT, i, "meta.json")))
        by = "; ".join("%s: %s" % (c, w) for c, w in sorted(d.get(i, {}).items())) or "?"
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), by.replace("|", "/")))
    f = os.path.join(V, "DESIGN.md")
    s = open(f).read()
    a, b = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->"
    s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
    open(f, "w").write(s)
    print(len(rows) - 2, "bugs;", sum("NOT CAUGHT" in r for r in rows), "not caught;", sum(r.endswith("| ? |") for r in rows), "not tried")


if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "table":
    table()
else:
    attempt(sys.argv[2], sys.argv[3:])
