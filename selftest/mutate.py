#!/usr/bin/env python3
"""Development aid, not a check: plants single-point AST mutations in the
functions of the tree (in memory) and reports how the comparison judges them.

  mutate.py [-n N] [-s seed] [-m modulefilter] [-j jobs] [-v status]
"""
import argparse
import ast
import collections
import copy
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sa'))
sys.setrecursionlimit(20000)
import check
import contract
import obligations
import program

REF = os.environ.get('REF', '/repo')

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}
ATTR = {'x0': 'y0', 'y0': 'x0', 'x1': 'y1', 'y1': 'x1', 'ra': 'dec', 'dec': 'ra', 'getParams': 'getAllParams',
        'getLowerBounds': 'getUpperBounds', 'getUpperBounds': 'getLowerBounds', 'getWidth': 'getHeight', 'getHeight': 'getWidth',
        'lower': 'upper', 'getInvError': 'getInvvar', 'getInvvar': 'getInvError', 'x': 'y', 'y': 'x', 'shape': 'size',
        'fluxes': 'mags', 'minimum': 'maximum', 'maximum': 'minimum', 'e1': 'e2', 'e2': 'e1', 'append': 'extend', 'extend': 'append',
        'sin': 'cos', 'cos': 'sin', 'brightnessExp': 'brightnessDev', 'brightnessDev': 'brightnessExp', '_getActiveSubs': '_getInactiveSubs',
        '_getLiquidArray': '_getFrozenArray', 'freezeParam': 'thawParam', 'thawParam': 'freezeParam'}
NAME = {'min': 'max', 'max': 'min', 'W': 'H', 'H': 'W', 'x0': 'y0', 'y0': 'x0', 'x1': 'y1', 'y1': 'x1', 'px': 'py', 'py': 'px',
        'dx': 'dy', 'dy': 'dx', 'i': 'j', 'j': 'i', 'ix': 'iy', 'iy': 'ix', 'any': 'all', 'all': 'any', 'x': 'y', 'y': 'x', 'xl': 'xh', 'yl': 'yh',
        'pw': 'ph', 'ph': 'pw', 'w': 'h', 'h': 'w'}


def sites(fn):
    """list of (kind, description, apply(fncopy)); node identity by walk index"""
    out = []
    nodes = list(ast.walk(fn))
    doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    for i, n in enumerate(nodes):
        if doc is not None and (n is doc or n is doc.value):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append(('cmp', i))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append(('bin', i))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append(('const', i))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append(('negif', i))
        if isinstance(n, ast.BoolOp):
            out.append(('boolop', i))
            out.append(('dropop', i))
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            out.append(('attr', i))
        if isinstance(n, ast.Name) and n.id in NAME:
            out.append(('name', i))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append(('swapargs', i))
            if n.keywords:
                out.append(('dropkw', i))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                out.append(('dropcopy', i))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append(('slice', i))
        if isinstance(n, ast.AugAssign):
            out.append(('aug', i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(('dropun', i))
        if isinstance(n, (ast.Break, ast.Continue)):
            out.append(('brk', i))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Return)) and s is not doc and \
                            (len(b) > 1 or not isinstance(n, ast.FunctionDef)) and not islog(s):
                        out.append(('del', i, fld, j))
                    if j and not isinstance(s, ast.Return) and not islog(s) and not islog(b[j - 1]) and b[j - 1] is not doc:
                        out.append(('swapst', i, fld, j))
    return out


def islog(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
        getattr(s.value.func, 'id', '') in ('print', 'logverb', 'logmsg', 'debug', 'info') or
        getattr(s.value.func, 'attr', '') in ('debug', 'info', 'warning', 'format', 'clf', 'plot', 'title', 'savefig'))


def apply(fn, site, rng):
    n = list(ast.walk(fn))[site[1]]
    k = site[0]
    if k == 'cmp':
        n.ops = [CMP[type(n.ops[0])]()]
    elif k == 'bin':
        n.op = BIN[type(n.op)]()
    elif k == 'const':
        if isinstance(n.value, bool):
            n.value = not n.value
        else:
            n.value = n.value + rng.choice([1, -1])
    elif k == 'negif':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == 'boolop':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == 'dropop':
        n.values.pop(rng.randrange(len(n.values)))
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif k == 'attr':
        n.attr = ATTR[n.attr]
    elif k == 'name':
        n.id = NAME[n.id]
    elif k == 'swapargs':
        j = rng.randrange(len(n.args) - 1)
        n.args[j], n.args[j + 1] = n.args[j + 1], n.args[j]
    elif k == 'dropkw':
        n.keywords.pop(rng.randrange(len(n.keywords)))
    elif k == 'dropcopy':
        v = n.func.value
        n.func = ast.Name('_id_', ast.Load())
        n.__class__ = v.__class__
        n.__dict__ = v.__dict__
    elif k == 'slice':
        if n.slice.lower is not None and rng.random() < .5:
            n.slice.lower = ast.BinOp(n.slice.lower, ast.Add(), ast.Constant(1))
        elif n.slice.upper is not None:
            n.slice.upper = ast.BinOp(n.slice.upper, ast.Add(), ast.Constant(1))
        else:
            n.slice.lower = ast.Constant(1)
    elif k == 'aug':
        n.op = BIN.get(type(n.op), ast.Sub)()
    elif k == 'dropun':
        v = n.operand
        n.__class__ = v.__class__
        n.__dict__ = v.__dict__
    elif k == 'brk':
        n.__class__ = ast.Continue if isinstance(n, ast.Break) else ast.Break
    elif k == 'del':
        b = getattr(n, site[2])
        b[site[3]] = ast.Pass()
    elif k == 'swapst':
        b = getattr(n, site[2])
        j = site[3]
        b[j], b[j - 1] = b[j - 1], b[j]
    ast.fix_missing_locations(fn)


_ref = None
_share = {}


def build(path, newtree):
    """program with the tree of one module replaced"""
    P = program.Program()
    for m in sorted(_ref.modules.values(), key=lambda m: m.path):
        tree = newtree if m.path == path else m.tree
        mm = program.Module(m.path, tree, m.src)
        P.modules[mm.name] = mm
        P.by_path[m.path] = mm
        P._scan(mm, tree.body)
        mm.varying |= m.varying
    return P


def find(tree, qual):
    parts = qual.split('.')
    body = tree.body
    st = [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef) and x.name == parts[0]] if len(parts) > 1 else None
    if st is not None:
        body = st[0].body
        nm = parts[1]
        for x in ast.walk(st[0]):
            if isinstance(x, ast.FunctionDef) and x.name == nm:
                return x
        return None
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef) and x.name == qual:
            return x


def one(job):
    path, qual, site, seed = job
    global _ref
    if _ref is None:
        _ref = program.load(REF)
    rng = random.Random(seed)
    m = _ref.by_path[path]
    tree = copy.deepcopy(m.tree)
    fn = find(tree, qual)
    before = ast.unparse(fn)
    apply(fn, site, rng)
    try:
        after = ast.unparse(fn)
        ast.parse(after)
    except Exception as e:
        return job, 'invalid', str(e), '', 0
    if before == after:
        return job, 'invalid', 'same', '', 0
    import difflib
    dl = [l for l in difflib.unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=0) if l[:2] not in ('--', '++', '@@')]
    A = build(path, tree)
    C = contract.Contracts(_ref, A)
    C._sum = {k: v for k, v in _share.items()}
    t0 = time.time()
    try:
        v = C.compare(path, qual)
        st, why = v.status, v.why
        if st == 'violated' and not check.public(qual.split('.')[-1]):
            K = check.Check.__new__(check.Check)
            K.ref, K.act, K.C = _ref, A, C
            if not K.private_matters(path, qual):
                st = 'dismissed'
    except Exception as e:
        import traceback
        st, why = 'crash', traceback.format_exc()[-600:]
    for k, s in C._sum.items():
        if k[0] == id(_ref):
            _share[k] = s
    return job, st, why, '\n'.join(dl), time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=300)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-m', default='')
    ap.add_argument('-q', default='')
    ap.add_argument('-p', action='store_true', help='private helpers only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', default='undecided,equal,crash,dismissed')
    a = ap.parse_args()
    rng = random.Random(a.s)
    R = program.load(REF)
    funcs = set()
    for k in obligations.OBL:
        if k != 'P21':
            funcs |= set(obligations.expand(R, k))
    jobs = []
    for path, qual in sorted(funcs):
        if a.m and not any(path.endswith(x) for x in a.m.split(',')):
            continue
        if a.p and check.public(qual.split('.')[-1]):
            continue
        if a.q and a.q not in qual:
            continue
        fn = find(R.by_path[path].tree, qual.replace('.setter', ''))
        if fn is None:
            continue
        L = sites(fn)
        for s in L:
            jobs.append((path, qual, s, rng.randrange(1 << 30)))
    rng.shuffle(jobs)
    # spread over functions: weight by sqrt
    byf = collections.defaultdict(list)
    for j in jobs:
        byf[j[:2]].append(j)
    pick = []
    keys = sorted(byf)
    while len(pick) < a.n and keys:
        rng.shuffle(keys)
        for k in list(keys):
            if not byf[k]:
                keys.remove(k)
                continue
            for _ in range(max(1, int(len(byf[k]) ** .5 / 3))):
                if byf[k]:
                    pick.append(byf[k].pop())
    pick = pick[:a.n]
    cnt = collections.Counter()
    bykind = collections.defaultdict(collections.Counter)
    t0 = time.time()
    show = a.v.split(',')
    with multiprocessing.Pool(a.j, maxtasksperchild=200) as p:
        for job, st, why, dl, dt in p.imap_unordered(one, sorted(pick), chunksize=4):
            cnt[st] += 1
            if st != 'invalid':
                bykind[job[2][0]][st] += 1
            if st in show or dt > 30:
                print('== %s %s:%s [%s] %.1fs %s\n%s' % (st, job[0], job[1], job[2][0], dt, why[:300], dl), flush=True)
    print(cnt, '%.0f s' % (time.time() - t0))
    for k in sorted(bykind):
        print('  %-9s' % k, dict(bykind[k]))


if __name__ == '__main__':
    main()
