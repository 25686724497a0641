#!/usr/bin/env python3
"""Generate mutants of /repo/dppy for tools/mutate.py (run by hand).

  tools/genmut.py N SEED PROP,PROP dppy/FILE.py [FUNC_SUBSTR] > MUTANTS.py
"""
import ast
import random
import sys

n, seed, props, path = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(','), sys.argv[4]
sub = sys.argv[5] if len(sys.argv) > 5 else ''
src = open('/repo/' + path).read()
lines = src.splitlines()
tree = ast.parse(src)
out = []


def add(node, text, what, fn):
    if node.lineno != node.end_lineno or node.lineno is None:
        return
    a, b = node.col_offset, node.end_col_offset
    out.append(('%s:%d %s | %s => %s' % (fn, node.lineno, what, lines[node.lineno - 1][a:b][:50], text[:50]),
                props, path, ('pos', node.lineno, a, b, text), ''))


def seg(x):
    return ast.get_source_segment(src, x)


SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


def visit(node, fn):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        fn = node.name
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if any(k in fn for k in ('plot', 'hist', '__str__', 'info', 'display')):
            return
        for c in body:
            visit(c, fn)
        return
    if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom)):
        return
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', '') in ('print', 'warn'):
        return
    if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('err_print', 'warn_print', 'str_info', 'msg', 'err_str'):
        return
    if sub in fn:
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
            add(node, '(%s %s %s)' % (seg(node.left), SWAP[type(node.ops[0])], seg(node.comparators[0])), 'cmp', fn)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            add(node, '(%s %s %s)' % (seg(node.left), BIN[type(node.op)], seg(node.right)), 'bin', fn)
        if isinstance(node, ast.Constant) and type(node.value) in (int, float):
            v = node.value
            add(node, repr(v + 1) if isinstance(v, int) else repr(v * 1.3), 'const', fn)
        if isinstance(node, (ast.If, ast.While)):
            add(node.test, '(not (%s))' % seg(node.test), 'neg', fn)
        if isinstance(node, ast.IfExp):
            add(node.test, '(not (%s))' % seg(node.test), 'neg', fn)
        if isinstance(node, (ast.AugAssign, ast.Expr)) or isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            add(node, 'pass', 'del', fn)
        if isinstance(node, ast.keyword) and node.arg in ('axis', 'replace', 'initial', 'size', 'random_state', 'copy'):
            pass
        if isinstance(node, ast.Call) and getattr(node.func, 'attr', '') in ('sqrt', 'abs', 'log', 'exp', 'sort', 'copy', 'sorted', 'clip', 'maximum') and node.args:
            add(node, '(%s)' % seg(node.args[0]), 'drop-call', fn)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            add(node, '(%s)' % seg(node.operand), 'sign', fn)
        if isinstance(node, ast.BoolOp) and len(node.values) == 2:
            add(node, '(%s)' % seg(node.values[0]), 'bool', fn)
    for c in ast.iter_child_nodes(node):
        visit(c, fn)


visit(tree, '')
for t in tree.body:
    pass
r = random.Random(seed)
r.shuffle(out)
sys.stderr.write('%d mutants, %d kept\n' % (len(out), min(n, len(out))))
print('MUTANTS = [')
for m in out[:n]:
    print('   ', repr(m) + ',')
print(']')
