#!/usr/bin/env python3
"""Mutation analysis: small changes to vistautils which pass its tests, to see which of them the checks miss.
  mutate.py list OUT.json                    all mutants
  mutate.py tests OUT.json [WIDTH]           run the tests on each (as nobody, in a scratch copy); keeps survivors
  mutate.py checks OUT.json [WIDTH] [MAX] [SEED]   run the checks of the mutated file on a sample of the survivors
  mutate.py show OUT.json                    survivors no check noticed
Survivors that no check notices are for a person to look at: many change nothing that can be observed.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
PKG = "vistautils"
SKIP = {"version.py", "__init__.py", "iterutils.py"}
CHECKS = {"range.py": ["R01", "R03", "R02", "R04", "R05"], "span.py": ["S01", "S02"], "annotated_text_utils.py": ["A01"], "parameters.py": ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "I02"],
          "_graph.py": ["G01"], "parameters_only_entrypoint.py": ["P08"], "key_value.py": ["K01", "K02", "K03", "K04", "I02"], "io_utils.py": ["I01", "I02", "K02"],
          "checkpoints.py": ["C01"], "iter_utils.py": ["U01"], "collection_utils.py": ["U01"], "preconditions.py": ["V01"], "attrutils.py": ["V02"], "memory_amount.py": ["M01"],
          "misc_utils.py": ["M02", "I02"], "class_utils.py": ["M02"], "logging_utils.py": ["L01"], "text_at_offsets.py": ["T01"]}


def checks_for(m):
    f = os.path.basename(m["file"])
    cs = CHECKS.get(f, ["K04"])
    if f == "parameters.py":
        fn = m["func"]
        for words, first in ((("interpol", "_interp", "Yaml", "YAML", "load", "include"), ["P04", "P05", "P08"]), (("unify",), ["P02", "P05", "P08"]), (("as_nested", "from_key", "from_mapping", "Writer", "sub_name", "namespaced", "_dict"), ["P03", "P01", "P02"]),
                             (("file", "director"), ["P06", "I02"]), (("object", "evaluate", "factory"), ["P07"])):
            if any(w in fn for w in words):
                return first + [c for c in cs if c not in first]
    if f == "range.py":
        fn = m["func"]
        if "RangeMap" in fn:
            return ["R04", "R05"]
        if "RangeSet" in fn:
            return ["R03", "R02", "R05", "R04"]
    return cs


def mutants():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, PKG)):
        for f in sorted(files):
            if f.endswith(".py") and f not in SKIP:
                p = os.path.join(root, f)
                src = open(p, encoding="utf-8").read()
                out += of(os.path.relpath(p, REPO), src)
    return out


def of(name, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: data[slice(*span(n))].decode()
    found = []

    def add(a, b, new, kind, node, func):
        found.append(dict(file=name, a=a, b=b, new=new, kind=kind, line=node.lineno, func=func, old=data[a:b].decode()))

    CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "+", ast.Div: "*"}

    def go(node, func, quiet):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            func = (func + "." if func else "") + node.name
            if isinstance(node, ast.FunctionDef):
                if node.name in ("__repr__", "__str__"):
                    return
                body = node.body
                for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                    go(d, func, quiet)
                for s in body:
                    go(s, func, quiet)
                return
        if isinstance(node, ast.Raise):
            if isinstance(node.exc, ast.Call):
                add(*span(node), "pass", "no raise", node, func)
            return
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Assert)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                go(node.value, func, quiet)
            return
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            if isinstance(node.value, ast.Call) and func:
                t = text(node.value.func)
                if not t.startswith(("_logger", "logging.", "warnings")):
                    add(*span(node), "pass", "no statement", node, func)
        if isinstance(node, ast.Call) and text(node.func) in ("_logger.info", "_logger.warning", "TypeVar", "deprecation.deprecated", "NewType", "logging.getLogger"):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = span(node.left)[1], span(node.comparators[0])[0]
            if b"\n" not in data[a:b] and b"(" not in data[a:b] and b")" not in data[a:b]:
                for n in CMP[type(node.ops[0])]:
                    add(a, b, " %s " % n, "compare", node, func)
        if isinstance(node, ast.BoolOp):
            for v in node.values:
                others = [x for x in node.values if x is not v]
                word = " and " if isinstance(node.op, ast.And) else " or "
                add(*span(node), "(" + word.join(text(x) for x in others) + ")", "drop operand", node, func)
            if len(node.values) == 2:
                word = " or " if isinstance(node.op, ast.And) else " and "
                add(*span(node), "(" + word.join(text(x) for x in node.values) + ")", "and/or", node, func)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(*span(node), "(" + text(node.operand) + ")", "not", node, func)
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(*span(node), str(not node.value), "constant", node, func)
            elif isinstance(node.value, int):
                add(*span(node), str(node.value + 1), "constant", node, func)
                if node.value > 0:
                    add(*span(node), str(node.value - 1), "constant", node, func)
            elif isinstance(node.value, str) and func and node.value and len(node.value) < 12 and node.lineno == node.end_lineno:
                add(*span(node), repr(""), "string", node, func)
                add(*span(node), repr(node.value + "x"), "string", node, func)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            add(*span(node), "(%s) %s (%s)" % (text(node.left), BIN[type(node.op)], text(node.right)), "arithmetic", node, func)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
                add(*span(node.test), "(not (%s))" % text(node.test), "condition", node, func)
            if not isinstance(node, ast.While):
                add(*span(node.test), "(True or (%s))" % text(node.test), "condition true", node, func)
            add(*span(node.test), "(False and (%s))" % text(node.test), "condition false", node, func)
        if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            add(*span(node.value), "None", "return", node, func)
        if isinstance(node, ast.Assign) and func and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            add(*span(node), "pass", "no statement", node, func)
        if isinstance(node, ast.AugAssign):
            add(*span(node), "pass", "no statement", node, func)
        if isinstance(node, ast.Break):
            add(*span(node), "continue", "break", node, func)
        if isinstance(node, ast.Continue):
            add(*span(node), "pass", "continue", node, func)
            add(*span(node), "break", "continue", node, func)
        if isinstance(node, ast.Call) and func:
            for k in node.keywords:
                a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                e = b
                rest = data[e:e + 1]
                if rest == b",":
                    e += 1
                add(a, e, "", "drop keyword", node, func)
            if len(node.args) == 2 and not node.keywords:
                x, y = node.args
                add(span(x)[0], span(y)[1], text(y) + ", " + text(x), "swap arguments", node, func)
            if len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], (ast.Starred, ast.GeneratorExp)):
                add(*span(node), "(" + text(node.args[0]) + ")", "unwrap", node, func)
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
                add(*span(node), text(node.func.value), "unwrap", node, func)
        if isinstance(node, ast.Slice):
            for part in (node.lower, node.upper):
                if part is not None:
                    add(*span(part), "(%s) + 1" % text(part), "slice", part, func)
        for field, c in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "bases", "type_comment", "format_spec"):
                continue
            for x in (c if isinstance(c, list) else [c]):
                if isinstance(x, ast.AST):
                    go(x, func, quiet)

    go(tree, "", False)
    ok = []
    seen = set()
    for m in found:
        k = (m["a"], m["b"], m["new"])
        new = data[:m["a"]] + m["new"].encode() + data[m["b"]:]
        if k in seen or new == data:
            continue
        seen.add(k)
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                ok.append(m)
        except (SyntaxError, ValueError):
            pass
    return ok


class Copy:
    failing = []   # tests that fail on the unchanged tree

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="mut-")
        os.chmod(self.d, 0o755)
        subprocess.run(["cp", "-a", REPO, self.d + "/repo"], check=True)
        os.mkdir(self.d + "/w")

    def put(self, m):
        p = os.path.join(REPO, m["file"])
        data = open(p, "rb").read()
        with open(os.path.join(self.d, "repo", m["file"]), "wb") as f:
            f.write(data[:m["a"]] + m["new"].encode() + data[m["b"]:])

    def undo(self, m):
        shutil.copy(os.path.join(REPO, m["file"]), os.path.join(self.d, "repo", m["file"]))

    def tests(self, stop=True):
        w = self.d + "/w"
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        os.chown(w, 65534, 65534)
        env = dict(PATH="/usr/bin:/bin", PYTHONPATH=self.d + "/repo", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0", LANG="C.UTF-8", HOME=w, TMPDIR=w)
        try:
            r = subprocess.run(["setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups", "/opt/venv/bin/python", "-m", "pytest", "tests", "-q"] + (["-x"] if stop else []) + ["--deselect=" + t for t in Copy.failing] + ["--tb=no", "-rf", "-p", "no:cacheprovider", "-p", "pytest_timeout",
                                "--timeout=60", "--basetemp=" + w + "/t"], cwd=self.d + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 99, "timeout"

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def pool(items, width, work):
    lock = threading.Lock()
    items = list(items)[::-1]

    def loop():
        c = Copy()
        try:
            while True:
                with lock:
                    if not items:
                        return
                    m = items.pop()
                c.put(m)
                try:
                    work(c, m, lock)
                finally:
                    c.undo(m)
        finally:
            c.close()
    ts = [threading.Thread(target=loop) for _ in range(width)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def main():
    what, f = sys.argv[1:3]
    width = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    if what == "list":
        ms = mutants()
        json.dump(ms, open(f, "w"))
        print(len(ms))
        return
    ms = json.load(open(f))
    save = lambda: (json.dump(ms, open(f + ".tmp", "w")), os.replace(f + ".tmp", f))
    if what == "tests":
        c = Copy()
        o = c.tests(False)[1]
        Copy.failing = [l.split()[1] for l in o.splitlines() if l.startswith(("FAILED", "ERROR"))]
        print("unchanged:", Copy.failing, c.tests()[1][-200:], flush=True)
        c.close()
        n = [0]

        def work(c, m, lock):
            r, o = c.tests()
            with lock:
                m["tests"] = r
                n[0] += 1
                if n[0] % 100 == 0:
                    save()
                    print(n[0], sum(x.get("tests") == 0 for x in ms), flush=True)
        pool([m for m in ms if "tests" not in m], width, work)
        save()
        print("survivors:", sum(x.get("tests") == 0 for x in ms), "of", len(ms))
    elif what == "checks":
        alive = [m for m in ms if m.get("tests") == 0 and "by" not in m]
        random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(alive)
        alive = alive[:int(sys.argv[4]) if len(sys.argv) > 4 else None]

        def work(c, m, lock):
            by = "none"
            t = time.time()
            notes = []
            for k in checks_for(m):
                r = subprocess.run([V + "/bin/check", k], env=dict(os.environ, VERIF_REPO=c.d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    by = "%s:%d" % (k, r.returncode)
                    if r.returncode != 1:
                        notes.append(r.stdout[-600:])
                    break
            with lock:
                m["by"] = by
                m["notes"] = notes
                save()
                print("%s %s:%d %s [%s -> %s] %.0fs" % (by, m["file"], m["line"], m["kind"], m["old"][:40].replace("\n", " "), m["new"][:40].replace("\n", " "), time.time() - t), flush=True)
        pool(alive, width, work)
        save()
    else:
        for m in ms:
            if m.get("by") and not m["by"].endswith(":1"):
                print("%s %s:%d %s in %s\n     %s\n  -> %s" % (m["by"], m["file"], m["line"], m["kind"], m["func"], m["old"], m["new"]))


main()
