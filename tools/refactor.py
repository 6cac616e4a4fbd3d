"""Rewrites of the code under test which change nothing of what it does.

    refactor.py make REPO SEED [FILE...]     rewrite the modules of a copy of the repository in place

The checks judge what code does, so they have to stay quiet about a copy rewritten like this (VERIF_REPO=copy bin/check ID).
Functions' bodies go into helpers, conditions are turned around, loops and comprehensions are written differently, local names
change, results go through temporary names.  This is for testing the checks; no check uses it.
"""
import ast
import os
import random
import sys


def scope_nodes(fn):
    """The nodes of a function without those of functions, classes in it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))


def is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in scope_nodes(fn))


class Rewriter(ast.NodeTransformer):
    def __init__(self, rnd):
        self.rnd, self.n, self.counts = rnd, 0, {}
        self.infn = 0

    def hit(self, kind, p):
        if self.rnd.random() < p:
            self.counts[kind] = self.counts.get(kind, 0) + 1
            return True
        return False

    def new(self, base):
        self.n += 1
        return "%s_%d" % (base, self.n)

    # -- functions
    def visit_FunctionDef(self, fn):
        self.infn += 1
        self.generic_visit(fn)
        self.infn -= 1
        if self.hit("rename", 0.5):
            self.rename(fn)
        if self.hit("noop", 0.3):
            k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body.insert(k, ast.parse("pass").body[0])
        return fn

    def rename(self, fn):
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for v in (fn.args.vararg, fn.args.kwarg):
            if v:
                params.add(v.arg)
        inner = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    inner |= {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
                    for v in (n.args.vararg, n.args.kwarg):
                        if v:
                            inner.add(v.arg)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    inner.add(n.name)
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                        inner.add(m.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                inner |= set(n.names)
            if isinstance(n, ast.ExceptHandler) and n.name:
                inner.add(n.name)
            if isinstance(n, ast.Name) and n.id in ("locals", "eval", "exec", "vars"):
                return
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                inner |= {(a.asname or a.name).split(".")[0] for a in n.names}
        own = {n.id for n in scope_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        table = {x: self.new(x + "_v") for x in own - params - inner if not x.startswith("__")}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in table:
                n.id = table[n.id]

    # -- statements
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.hit("turned", 0.6):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.hit("nested", 0.7):
            v = n.test.values
            rest = v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:])
            return ast.If(test=v[0], body=[ast.If(test=rest, body=n.body, orelse=[])], orelse=[])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit("turned expression", 0.5):
            return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if not n.orelse and self.infn and self.hit("while", 0.5):
            it = self.new("it")
            return [ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=ast.Call(func=ast.Name(id="iter", ctx=ast.Load()), args=[n.iter], keywords=[]), lineno=0),
                    ast.While(test=ast.Constant(value=True), body=[
                        ast.Try(body=[ast.Assign(targets=[n.target], value=ast.Call(func=ast.Name(id="next", ctx=ast.Load()), args=[ast.Name(id=it, ctx=ast.Load())], keywords=[]), lineno=0)],
                                handlers=[ast.ExceptHandler(type=ast.Name(id="StopIteration", ctx=ast.Load()), name=None, body=[ast.Break()])], orelse=[], finalbody=[])] + n.body, orelse=[])]
        return n

    def loop(self, comp, name):
        g = comp.generators
        method = "append" if isinstance(comp, ast.ListComp) else "add"
        inner = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr=method, ctx=ast.Load()), args=[comp.elt], keywords=[]))]
        for x in reversed(g):
            for c in reversed(x.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            inner = [ast.For(target=x.target, iter=x.iter, body=inner, orelse=[], lineno=0)]
        return inner

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None:
            return n
        if isinstance(n.value, (ast.ListComp, ast.SetComp)) and self.infn and self.hit("loop", 0.6) and not any(x.is_async for x in n.value.generators):
            name = self.new("collected")
            start = "[]" if isinstance(n.value, ast.ListComp) else "set()"
            # the names of a comprehension are its own
            targets = {m.id for g in n.value.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
            table = {x: self.new(x + "_c") for x in targets}
            if not any(isinstance(m, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and m is not n.value for m in ast.walk(n.value)):
                for m in ast.walk(n.value):
                    if isinstance(m, ast.Name) and m.id in table:
                        m.id = table[m.id]
                return ast.parse("%s = %s" % (name, start)).body + self.loop(n.value, name) + [ast.Return(value=ast.Name(id=name, ctx=ast.Load()))]
        if self.hit("result", 0.4):
            name = self.new("result")
            return [ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=n.value, lineno=0), ast.Return(value=ast.Name(id=name, ctx=ast.Load()))]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and all(isinstance(x, (ast.Name, ast.Constant)) for x in n.comparators[:1]) and self.hit("chain", 0.7):
            return ast.BoolOp(op=ast.And(), values=[ast.Compare(left=n.left, ops=n.ops[:1], comparators=n.comparators[:1]), ast.Compare(left=n.comparators[0], ops=n.ops[1:], comparators=n.comparators[1:])])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.NotIn)) and self.hit("negated", 0.3):
            flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(n.ops[0])]()
            return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[flip], comparators=n.comparators))
        return n


def outline(tree, rnd, rw):
    """Bodies of functions into helpers."""
    for owner in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        out = []
        for fn in owner.body:
            out.append(fn)
            if not isinstance(fn, ast.FunctionDef) or fn.name.startswith("__") or is_generator(fn):
                continue
            a = fn.args
            if a.vararg or a.kwarg or a.posonlyargs or len(fn.body) < 2 or not rw.hit("outlined", 0.3):
                continue
            names = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
            if fn.decorator_list and not (names <= {"staticmethod", "classmethod"} and len(names) == len(fn.decorator_list)):
                continue
            if any(isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals") for n in ast.walk(fn)):
                continue
            helper = rw.new("_" + fn.name.strip("_") + "_body")
            doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
            params = [x.arg for x in a.args + a.kwonlyargs]
            bare = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in params], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
            body = ast.FunctionDef(name=helper, args=bare, body=fn.body[len(doc):], decorator_list=[ast.Name(id=x, ctx=ast.Load()) for x in names], returns=None, type_comment=None, type_params=[], lineno=0)
            static = owner is tree
            if static:
                call, args = helper, params
            elif "staticmethod" in names:
                call, args = "%s.%s" % (owner.name, helper), params
            else:
                call, args = "%s.%s" % (params[0], helper), params[1:]
            if not static and "staticmethod" not in names and not params:
                continue
            fn.body = doc + [ast.parse("return %s(%s)" % (call, ", ".join(args))).body[0] if False else ast.Return(value=ast.parse("%s(%s)" % (call, ", ".join(args)), mode="eval").body)]
            out.append(body)
        owner.body = out


def main():
    repo, seed, files = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    rnd = random.Random(seed)
    total = {}
    for d, _, fs in os.walk(os.path.join(repo, "vistautils")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".py") or files and os.path.relpath(p, repo) not in files:
                continue
            with open(p) as i:
                tree = ast.parse(i.read())
            rw = Rewriter(rnd)
            tree = rw.visit(tree)
            outline(tree, rnd, rw)
            ast.fix_missing_locations(tree)
            with open(p, "w") as o:
                o.write(ast.unparse(tree) + "\n")
            for k, v in rw.counts.items():
                total[k] = total.get(k, 0) + v
    print(total)


main()
