"""mutate.py FILE CHECK[,CHECK...] [--funcs a,b] [--sample N] [--seed S] : development tool, not used by any check.
Small syntactic changes of one file of lips, each in a scratch copy; which of them do the given checks report?
Survivors are printed with their diff: equivalent changes, things outside the properties, or holes in a check."""
import ast
import os
import random
import subprocess
import sys
import tempfile
import shutil
import argparse

A = argparse.ArgumentParser()
A.add_argument('file'), A.add_argument('checks'), A.add_argument('--funcs', default=''), A.add_argument('--sample', type=int, default=40)
A.add_argument('--seed', type=int, default=1), A.add_argument('--jobs', default='8'), A.add_argument('--skip', default='')
a = A.parse_args()
src = open(os.path.join('/repo', a.file), encoding='utf8').read()
lines = src.encode('utf8').split(b'\n')
off = [0]
for l in lines:
    off.append(off[-1] + len(l) + 1)
raw = src.encode('utf8')


def seg(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


tree = ast.parse(src)
muts = []
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '+'}
SWAP = {'r_sp_d': 'l_sp_d', 'l_sp_d': 'r_sp_d', 'r_sp_u': 'l_sp_u', 'l_sp_u': 'r_sp_u', 'r2_sp': 'r2_sp_b', 'r2_sp_b': 'r2_sp', '_r2_sp': '_r2_sp_b', 'four_mom': 'four_mom_d', 'four_mom_d': 'four_mom'}


def T(n):
    s, e = seg(n)
    return raw[s:e].decode('utf8')


def add(n, new, kind):
    s, e = seg(n)
    muts.append((s, e, new, kind, n.lineno))


def visit(n, inside):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        name = n.name
        inside = inside or not a.funcs or name in a.funcs.split(',')
        if name in a.skip.split(','):
            return
        for d in n.body:
            visit(d, inside if isinstance(n, ast.FunctionDef) else (inside and not a.funcs) or False if a.funcs else inside)
        return
    if inside:
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, '%s %s %s' % (T(n.left), CMP[type(n.ops[0])], T(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            add(n, '%s %s %s' % (T(n.left), BIN[type(n.op)], T(n.right)), 'bin')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div)):
            add(n, '%s %s %s' % (T(n.right), '-' if isinstance(n.op, ast.Sub) else '/', T(n.left)), 'swap operands')
        if isinstance(n, ast.BoolOp):
            add(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join(T(v) for v in n.values), 'bool')
            for k in range(len(n.values)):
                add(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join(T(v) for j, v in enumerate(n.values) if j != k), 'drop clause')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'const')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'const')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, T(n.operand), 'unary')
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, T(n.value) + '.' + SWAP[n.attr], 'attr')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, 'pass', 'delete statement')
        if isinstance(n, ast.AugAssign):
            add(n, T(n.target) + ' = ' + T(n.value), 'aug')
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, 'not (%s)' % T(n.test), 'negate')
        if isinstance(n, ast.If):
            add(n.test, 'False', 'never')
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords:
                add(n, '%s(%s)' % (T(n.func), ', '.join([T(n.args[1]), T(n.args[0])] + [T(x) for x in n.args[2:]])), 'swap arguments')
            for k in n.keywords:
                rest = [T(x) for x in n.args] + ['%s%s' % ('**' if y.arg is None else y.arg + '=', T(y.value)) for y in n.keywords if y is not k]
                add(n, '%s(%s)' % (T(n.func), ', '.join(rest)), 'drop keyword')
            if isinstance(n.func, ast.Name) and n.func.id in ('deepcopy', 'abs', 'sorted', 'list', 'set', 'tuple') and len(n.args) == 1 or isinstance(n.func, ast.Attribute) and n.func.attr in ('deepcopy', 'copy') and len(n.args) == 1:
                add(n, T(n.args[0]), 'drop call')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, T(n.value), 'drop slice')
        if isinstance(n, ast.IfExp):
            add(n, T(n.body), 'ifexp'), add(n, T(n.orelse), 'ifexp')
        if isinstance(n, ast.ExceptHandler) is False and isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
            add(n.iter, 'list(%s)[1:]' % T(n.iter), 'skip first'), add(n.iter, 'list(%s)[:-1]' % T(n.iter), 'skip last')
    for c in ast.iter_child_nodes(n):
        visit(c, inside)


for n in tree.body:
    visit(n, not a.funcs)
muts = [m for m in muts if raw[m[0]:m[1]].decode('utf8') != m[2]]
random.Random(a.seed).shuffle(muts)
total = len(muts)
muts = muts[:a.sample]
print('%d changes, trying %d' % (total, len(muts)), flush=True)
W = tempfile.mkdtemp(prefix='lipsmut_')
try:
    subprocess.check_call(['cp', '-a', '/repo/lips', W])
    caught = 0
    for s, e, new, kind, line in muts:
        p = os.path.join(W, a.file)
        text = raw[:s] + new.encode('utf8') + raw[e:]
        try:
            ast.parse(text.decode('utf8'))
        except SyntaxError:
            continue
        open(p, 'wb').write(text)
        env = dict(os.environ, LIPS_REPO=W, VERIF_EVIDENCE=W + '/ev', VERIF_FAILFAST='1', VERIF_JOBS=a.jobs)
        out, got = [], False
        for c in a.checks.split(','):
            r = subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'run.sh'), c, 'quick'], env=env, capture_output=True)
            out.append('%s:%d' % (c, r.returncode))
            if r.returncode == 1:
                got = True
                break
        caught += got
        if not got:
            ln = raw[:e].count(b'\n')
            print('SURVIVES %s line %d (%s) %s\n   - %s\n   + %s' % (a.file, line, kind, ' '.join(out), raw.split(b'\n')[line - 1].decode().strip()[:170], new[:170].replace('\n', ' ')), flush=True)
    print('%s: %d of %d reported' % (a.file, caught, len(muts)))
finally:
    shutil.rmtree(W, ignore_errors=True)
