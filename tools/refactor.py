"""refactor.py SRC SEED [SHARE]: rewrite a clone's pythonbmp/*.py in ways that keep the behaviour.

The checks must stay quiet on the result.  For every function, by the seed:
  helper   the body moves into a new module-level helper the function calls
  loop     for x in y  ->  explicit iterator and while True
  invert   if a: X else: Y  ->  if not a: Y else: X
  ret      return e  ->  name = e; return name
  rename   local names get new names
  noop     statements that do nothing between the others
  comp     x = [e for v in it]  ->  list built by append
  const    leading constant assignments are turned round (independent statements swapped)
"""
import ast
import glob
import os
import random
import sys


def scopes(fn):
    """names bound in fn itself (not in nested functions) and whether it is plain enough to rename"""
    bound, bad = set(), set()
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg:
        args.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        args.add(fn.args.kwarg.arg)
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal,
                                          ast.Import, ast.ImportFrom)):
            bad.add(1)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.add(n.id)
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('locals', 'globals', 'eval', 'exec', 'vars'):
            bad.add(2)
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(3)
    return bound - args, bad


def isgen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))


class Fn(ast.NodeTransformer):
    def __init__(self, rng, kinds):
        self.rng, self.kinds, self.k = rng, kinds, 0

    def fresh(self, p):
        self.k += 1
        return f'{p}_{self.k}'

    def visit_FunctionDef(self, n):
        return n        # nested definitions stay

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if 'loop' not in self.kinds or n.orelse or self.rng.random() < .3:
            return n
        it = self.fresh('todo')
        flag = self.fresh('item')
        end = self.fresh('end')
        a = ast.parse(f'{end} = object()\n{it} = iter(0)\nwhile True:\n    {flag} = next({it}, {end})\n'
                      f'    if {flag} is {end}:\n        break\n    x = {flag}').body
        a[1].value.args[0] = n.iter
        a[2].body[-1].targets = [n.target]
        a[2].body += n.body
        return a

    def visit_If(self, n):
        self.generic_visit(n)
        if 'invert' in self.kinds and n.orelse and self.rng.random() < .7:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Return(self, n):
        if 'ret' in self.kinds and n.value is not None:
            v = self.fresh('answer')
            return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if 'comp' in self.kinds and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 \
                and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            g = n.value.generators[0]
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            used = {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name)} & names
            cnt = sum(isinstance(x, ast.Name) and x.id in names for x in ast.walk(self.fn))
            here = sum(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value))
            lams = any(isinstance(x, ast.Lambda) for x in ast.walk(n))
            args = {a.arg for a in self.fn.args.args}
            if used and cnt == here and not lams and not names & args:
                acc = self.fresh('acc')
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [n.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                return [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())),
                        ast.For(g.target, g.iter, body, []),
                        ast.Assign(n.targets, ast.Name(acc, ast.Load()))]
        return n


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


def noop(body, rng):
    out = []
    for s in body:
        if rng.random() < .3:
            out.append(ast.parse(rng.choice(['pass', 'None', '_unused = 0', 'if False:\n    pass'])).body[0])
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list) and getattr(s, f) and not isinstance(s, ast.FunctionDef):
                setattr(s, f, noop(getattr(s, f), rng))
        out.append(s)
    return out


def simple(s):
    return isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and len(s.targets) == 1 \
        and isinstance(s.targets[0], ast.Name)


def one(fn, rng, share):
    if rng.random() > share:
        return [fn]
    kinds = {k for k in ('loop', 'invert', 'ret', 'rename', 'noop', 'comp', 'helper', 'const') if rng.random() < .6}
    doc = []
    body = fn.body
    if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        doc, body = body[:1], body[1:]
    if not body:
        return [fn]
    nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn)
    t = Fn(rng, kinds)
    t.fn = fn
    new = []
    for s in body:
        q = t.visit(s)
        new += q if isinstance(q, list) else [q]
    body = new
    fn.body = doc + body
    bound, bad = scopes(fn)
    if 'rename' in kinds and not bad and not nested:
        m = {b: b + '_' for b in bound}
        r = Rename(m)
        body = [r.visit(s) for s in body]
    if 'const' in kinds:
        for i in range(len(body) - 1):
            if simple(body[i]) and simple(body[i + 1]) and body[i].targets[0].id != body[i + 1].targets[0].id:
                body[i], body[i + 1] = body[i + 1], body[i]
    if 'noop' in kinds:
        body = noop(body, rng)
    fn.body = doc + body
    a = fn.args
    if 'helper' in kinds and not isgen(fn) and not a.posonlyargs and not any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
        h = '_do_' + fn.name
        args = [x.arg for x in a.args + a.kwonlyargs]
        call = ', '.join(args + ([f'*{a.vararg.arg}'] if a.vararg else []) + ([f'**{a.kwarg.arg}'] if a.kwarg else []))
        helper = ast.parse(f'def {h}({call}):\n    pass').body[0]
        if a.kwonlyargs and a.vararg:
            return [fn]
        helper.body = body
        fn.body = doc + ast.parse(f'def f():\n    return {h}({call})').body[0].body
        return [helper, fn]
    return [fn]


def main():
    src, seed = sys.argv[1], int(sys.argv[2])
    share = float(sys.argv[3]) if len(sys.argv) > 3 else .7
    for p in sorted(glob.glob(src + '/pythonbmp/*.py')):
        if os.path.islink(p):
            continue
        rng = random.Random(f'{seed}{os.path.basename(p)}')
        t = ast.parse(open(p, newline='').read())
        body = []
        for s in t.body:
            body += one(s, rng, share) if isinstance(s, ast.FunctionDef) else [s]
        t.body = body
        open(p, 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')


main()
