#!/usr/bin/env python3
"""tools/refactor.py OUTDIR SEED: copy /repo/dppy to OUTDIR/dppy with many random edits that keep
the behaviour (helpers extracted, locals renamed, branches swapped, loops rewritten, temporaries
introduced, no-op statements).  Used to look for checks that judge how the code is written:
  DST_REPO=OUTDIR bin/check Cxx quick   must exit 0."""
import ast
import os
import random
import shutil
import subprocess
import sys

out, seed = sys.argv[1], int(sys.argv[2])
R = random.Random(seed)
count = {}


def hit(k, p):
    if R.random() < p:
        count[k] = count.get(k, 0) + 1
        return True
    return False


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Edit(ast.NodeTransformer):
    k = 0

    def tmp(self):
        Edit.k += 1
        return '_v%d' % Edit.k

    def block(self, body):
        res = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and hit('return-temp', .5):
                t = self.tmp()
                res += [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=s.value), ast.Return(value=name(t))]
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and hit('arg-temp', .3):
                c = s.value
                if c.args and not any(isinstance(a, ast.Starred) for a in c.args) and isinstance(c.func, (ast.Name, ast.Attribute)):
                    # evaluate all positional arguments first, in order, when the callee is a plain name chain
                    f = c.func
                    while isinstance(f, ast.Attribute):
                        f = f.value
                    if isinstance(f, ast.Name) and f.id != 'super':
                        ts = [self.tmp() for _ in c.args]
                        for t, a in zip(ts, c.args):
                            res.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=a))
                        c.args = [name(t) for t in ts]
            if isinstance(s, ast.For) and not s.orelse and hit('for-to-while', .5) \
                    and not any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'get_progress_bar' for x in ast.walk(s.iter)):
                t = self.tmp()
                res.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())],
                                      value=ast.Call(func=name('iter'), args=[s.iter], keywords=[])))
                nxt = ast.Try(body=[ast.Assign(targets=[s.target], value=ast.Call(func=name('next'), args=[name(t)], keywords=[]))],
                              handlers=[ast.ExceptHandler(type=name('StopIteration'), name=None, body=[ast.Break()])],
                              orelse=[], finalbody=[])
                res.append(ast.While(test=ast.Constant(value=True), body=[nxt] + s.body, orelse=[]))
                continue
            if hit('noop', .1):
                res.append(ast.Assign(targets=[ast.Name(id=self.tmp(), ctx=ast.Store())], value=ast.Constant(value=None)))
            if isinstance(s, ast.If) and s.orelse and hit('swap-if', .5):
                s.test, s.body, s.orelse = ast.UnaryOp(op=ast.Not(), operand=s.test), s.orelse, s.body
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and hit('nest-if', .6):
                v = s.test.values
                s.test = v[0]
                s.body = [ast.If(test=v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:]), body=s.body, orelse=[])]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) \
                    and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and hit('split-tuple', .7):
                ts = [self.tmp() for _ in s.value.elts]
                for t, a in zip(ts, s.value.elts):
                    res.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=a))
                for t, a in zip(ts, s.targets[0].elts):
                    res.append(ast.Assign(targets=[a], value=name(t)))
                continue
            res.append(s)
        return res

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, (ast.ClassDef, ast.Module)):
                doc = []
                if f == 'body' and isinstance(node, ast.FunctionDef) and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                    doc, b = b[:1], b[1:]
                setattr(node, f, doc + self.block(b))
        return node


def rename(fn):
    args = {a.arg for x in ast.walk(fn) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs + [y for y in (x.vararg, x.kwarg) if y]}
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
        return
    stores = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stores.add(x.id)
    inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef)}
    m = {s: s + '_r' for s in sorted(stores - args - inner) if s != '_' and hit('rename', .5)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        if isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]


def wrap(body, method):
    res = []
    for f in body:
        if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') \
                and not f.args.vararg and not f.args.kwonlyargs and hit('extract', .4) \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            names = [a.arg for a in f.args.args]
            new = '_%s_body' % f.name.strip('_')
            call_args = names[1:] if method else names
            fn = ast.Attribute(value=name(names[0]), attr=new, ctx=ast.Load()) if method and names else name(new)
            if method and not names:
                res.append(f)
                continue
            kw = [ast.keyword(arg=None, value=name(f.args.kwarg.arg))] if f.args.kwarg else []
            doc = []
            if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
                doc = f.body[:1]
            outer = ast.FunctionDef(name=f.name, args=f.args, decorator_list=[], returns=None, type_params=[],
                                    body=doc + [ast.Return(value=ast.Call(func=fn, args=[name(a) for a in call_args], keywords=kw))])
            a2 = ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], vararg=None, kwonlyargs=[], kw_defaults=[],
                               kwarg=f.args.kwarg, defaults=[])
            inner = ast.FunctionDef(name=new, args=a2, body=f.body[len(doc):] or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
            res += [inner, outer]
        else:
            res.append(f)
    return res


subprocess.run(['rm', '-rf', out + '/dppy'])
os.makedirs(out, exist_ok=True)
shutil.copytree('/repo/dppy', out + '/dppy', ignore=shutil.ignore_patterns('__pycache__'))
for f in sorted(os.listdir(out + '/dppy')):
    if not f.endswith('.py') or f == '__init__.py':
        continue
    p = out + '/dppy/' + f
    t = ast.parse(open(p).read())
    for x in ast.walk(t):
        if isinstance(x, ast.FunctionDef):
            rename(x)
    t = Edit().visit(t)
    t.body = wrap(t.body, False)
    for c in t.body:
        if isinstance(c, ast.ClassDef):
            c.body = wrap(c.body, True)
    ast.fix_missing_locations(t)
    open(p, 'w').write(ast.unparse(t) + '\n')
print(count)
