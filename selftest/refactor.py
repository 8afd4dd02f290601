#!/usr/bin/env python3
"""Development aid, not a check: applies behaviour-preserving rewrites to the
functions of the tree (in memory) and reports how the comparison judges them;
'violated' is a false alarm.

  refactor.py [-n N] [-s seed] [-m modulefilter] [-k kinds] [-j jobs] [-v status]
"""
import argparse
import ast
import collections
import copy
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sa'))
sys.setrecursionlimit(20000)
import contract
import obligations
import program
import mutate

REF = os.environ.get('REF', '/repo')


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def stores(node):
    s = names(node, (ast.Store, ast.Del))
    for n in ast.walk(node):
        if isinstance(n, ast.FunctionDef):
            s |= {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
    return s


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def pure(e):
    return not has(e, ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda)


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def own(fn):
    """skip functions where local renaming games are unsafe"""
    return not has(fn, ast.Global, ast.Nonlocal) and 'locals' not in names(fn)


def fresh_name(fn, base):
    used = names(fn) | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    i = 0
    while True:
        nm = base if i == 0 else '%s%d' % (base, i)
        if nm not in used:
            return nm
        i += 1


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        if type(e.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
            return ast.Compare(e.left, [inv[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def leaves(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


# each rewrite: f(fn, rng, tree, cls) -> True if applied
def rw_rename(fn, rng, tree, cls):
    if not own(fn):
        return False
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    loc = sorted(names(fn, ast.Store) - params)
    nested = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            nested |= names(n)
    imps = stores(fn) - names(fn, ast.Store)
    loc = [x for x in loc if x not in nested and x not in imps]
    if not loc:
        return False
    x = rng.choice(loc)
    y = fresh_name(fn, x + '_v')
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == x:
            n.id = y
    return True


def rw_temp(fn, rng, tree, cls):
    """name the whole right-hand side, a return value, a call argument or a condition"""
    if not own(fn):
        return False
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                c.append((b, i, s, 'value', None))
            elif isinstance(s, ast.Assign) and not isinstance(s.value, (ast.Name, ast.Constant)) and not isinstance(s.targets[0], ast.Tuple):
                c.append((b, i, s, 'value', None))
            elif isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not (
                    f == 'orelse' and isinstance(n, ast.If)):
                c.append((b, i, s, 'test', None))
            elif isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                c.append((b, i, s, 'iter', None))
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and isinstance(s.value, ast.Call) and s.value.args:
                a0 = s.value.args[0]
                fu = s.value.func
                if not isinstance(a0, (ast.Name, ast.Constant, ast.Starred)) and (isinstance(fu, ast.Name) or (
                        isinstance(fu, ast.Attribute) and pure(fu.value))) and not (isinstance(fu, ast.Name) and fu.id == 'super') and \
                        not (isinstance(fu, ast.Attribute) and isinstance(fu.value, ast.Call)) and not isinstance(a0, ast.GeneratorExp):
                    c.append((b, i, s, 'arg', None))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
                if not isinstance(s.value.left, (ast.Name, ast.Constant)):
                    c.append((b, i, s, 'left', None))
                if pure(s.value.left) and not isinstance(s.value.right, (ast.Name, ast.Constant)):
                    c.append((b, i, s, 'right', None))
    if not c:
        return False
    b, i, s, kind, _ = rng.choice(c)
    t = fresh_name(fn, rng.choice(['tmp', 'val', 'res_', 'item_']))
    L = ast.Name(t, ast.Load())
    if kind in ('value', 'test', 'iter'):
        e = getattr(s, kind)
        setattr(s, kind, L)
    elif kind == 'arg':
        e = s.value.args[0]
        s.value.args[0] = L
    else:
        e = getattr(s.value, kind)
        setattr(s.value, kind, L)
    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], e))
    return True


def rw_invert(fn, rng, tree, cls):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse]
    if not c:
        return False
    n = rng.choice(c)
    n.test = neg(n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def rw_else(fn, rng, tree, cls):
    """if c: ...return; rest  ->  if c: ... else: rest"""
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True


def rw_unelse(fn, rng, tree, cls):
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    o = b[i].orelse
    b[i].orelse = []
    b[i + 1:i + 1] = o
    return True


def rw_guard(fn, rng, tree, cls):
    """for ..: if c: continue; rest -> for ..: if not c: rest (and back)"""
    c = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)):
            for i, s in enumerate(n.body[:-1]):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
                    c.append((n, i, 0))
            s = n.body[-1]
            if isinstance(s, ast.If) and not s.orelse and len(s.body) > 1:
                c.append((n, len(n.body) - 1, 1))
    if not c:
        return False
    n, i, k = rng.choice(c)
    s = n.body[i]
    if k == 0:
        n.body[i:] = [ast.If(neg(s.test), n.body[i + 1:], [])]
    else:
        n.body[i:] = [ast.If(neg(s.test), [ast.Continue()], [])] + s.body
    return True


def rw_comp2loop(fn, rng, tree, cls):
    if not own(fn):
        return False
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp):
                if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                    continue
                cv = set()
                for g in s.value.generators:
                    cv |= names(g.target)
                others = collections.Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name))
                inside = collections.Counter(x.id for x in ast.walk(s.value) if isinstance(x, ast.Name))
                if any(others[v] != inside[v] for v in cv):
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    if isinstance(s, ast.Assign):
        t = s.targets[0].id
        if t in names(s.value):
            t = fresh_name(fn, 'out')
    else:
        t = fresh_name(fn, 'out')
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
    for g in reversed(s.value.generators):
        for x in reversed(g.ifs):
            body = [ast.If(x, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    pre = [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()))] + body
    if isinstance(s, ast.Return):
        pre.append(ast.Return(ast.Name(t, ast.Load())))
    elif t != s.targets[0].id:
        pre.append(ast.Assign(s.targets, ast.Name(t, ast.Load())))
    b[i:i + 1] = pre
    return True


def rw_loop2comp(fn, rng, tree, cls):
    c = []
    for n, f, b in blocks(fn):
        for i in range(1, len(b)):
            s, p = b[i], b[i - 1]
            if isinstance(s, ast.For) and not s.orelse and isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts \
                    and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                t = p.targets[0].id
                body, cond = s.body, []
                while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                    cond.append(body[0].test)
                    body = body[0].body
                if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and \
                        isinstance(body[0].value.func, ast.Attribute) and body[0].value.func.attr == 'append' and \
                        isinstance(body[0].value.func.value, ast.Name) and body[0].value.func.value.id == t and \
                        t not in names(s.iter) and t not in names(body[0].value.args[0]):
                    tv = names(s.target)
                    allc = collections.Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name))
                    inc = collections.Counter(x.id for x in ast.walk(s) if isinstance(x, ast.Name))
                    if any(allc[v] != inc[v] for v in tv):
                        continue
                    c.append((b, i, s, p, body[0].value.args[0], cond))
    if not c:
        return False
    b, i, s, p, e, cond = rng.choice(c)
    p.value = ast.ListComp(e, [ast.comprehension(s.target, s.iter, cond, 0)])
    del b[i]
    return True


def rw_range(fn, rng, tree, cls):
    """enumerate(x) / for x in xs over a plain name -> index loop"""
    if not own(fn):
        return False
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.For):
            st = set()
            for x in n.body:
                st |= stores(x)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 \
                    and isinstance(n.iter.args[0], ast.Name) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                q = n.iter.args[0].id
                if q in st or n.target.elts[0].id in st or q in names(n.target):
                    continue
                c.append((n, 'e'))
    if not c:
        return False
    n, k = rng.choice(c)
    xs = n.iter.args[0].id
    i = n.target.elts[0].id
    n.body.insert(0, ast.Assign([n.target.elts[1]], ast.Subscript(ast.Name(xs, ast.Load()), ast.Name(i, ast.Load()), ast.Load())))
    n.target = ast.Name(i, ast.Store())
    n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(xs, ast.Load())], [])], [])
    return True


def rw_enum(fn, rng, tree, cls):
    """for i in range(len(xs)) -> enumerate when xs[i] is used; plain for -> enumerate with unused index"""
    if not own(fn):
        return False
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.target, (ast.Name, ast.Tuple)) and not (
        isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'enumerate'))]
    if not c:
        return False
    n = rng.choice(c)
    i = fresh_name(fn, 'idx_')
    n.target = ast.Tuple([ast.Name(i, ast.Store()), n.target], ast.Store())
    n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
    return True


def rw_while(fn, rng, tree, cls):
    """for i in range(n) -> while loop with a counter (no continue inside)"""
    if not own(fn):
        return False
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and \
                    not has(ast.Module(s.body, []), ast.Continue):
                allc = sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == s.target.id)
                inc = sum(1 for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == s.target.id)
                st = set()
                for x in s.body:
                    st |= stores(x)
                if allc == inc and s.target.id not in st:
                    c.append((b, i, s, st))
    if not c:
        return False
    b, i, s, st = rng.choice(c)
    t = s.target.id
    N = s.iter.args[0]
    pre = [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(0))]
    if not (isinstance(N, ast.Name) and N.id not in st) and not isinstance(N, ast.Constant):
        nn = fresh_name(fn, 'n_')
        pre.append(ast.Assign([ast.Name(nn, ast.Store())], N))
        N = ast.Name(nn, ast.Load())
    pre.append(ast.While(ast.Compare(ast.Name(t, ast.Load()), [ast.Lt()], [N]),
                         s.body + [ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), ast.Constant(1))], []))
    b[i:i + 1] = pre
    return True


def simple(s):
    return isinstance(s, ast.Assign) and all(isinstance(x, ast.Name) or (isinstance(x, ast.Tuple) and all(isinstance(y, ast.Name) for y in x.elts))
                                             for x in s.targets)


def rw_swap(fn, rng, tree, cls):
    c = []
    for n, f, b in blocks(fn):
        for i in range(len(b) - 1):
            s, q = b[i], b[i + 1]
            if simple(s) and simple(q) and (pure(s.value) or pure(q.value)) and not (stores(s) & (names(q))) and not (stores(q) & names(s)):
                # a call on one side may mutate what the other reads: want one side free of attribute loads or the call side plain
                x = s if pure(s.value) else q
                y = q if x is s else s
                if pure(y.value) or not has(x.value, ast.Attribute, ast.Subscript):
                    c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def rw_ternary(fn, rng, tree, cls):
    """x = a if c else b  <->  if c: x = a else: x = b"""
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                c.append((b, i, s, 0))
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value is not None and y.value is not None:
                    c.append((b, i, s, 1))
                if isinstance(x, ast.Assign) and ast.dump(ast.Tuple(x.targets, ast.Load())) == ast.dump(ast.Tuple(y.targets, ast.Load())):
                    c.append((b, i, s, 1))
    if not c:
        return False
    b, i, s, k = rng.choice(c)
    if k == 0:
        e = s.value
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        x.value, y.value = e.body, e.orelse
        b[i] = ast.If(e.test, [x], [y])
    else:
        x, y = s.body[0], s.orelse[0]
        x.value = ast.IfExp(s.test, x.value, y.value)
        b[i] = x
    return True


def rw_demorgan(fn, rng, tree, cls):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp, ast.While)) and isinstance(n.test, ast.BoolOp)]
    if not c:
        return False
    n = rng.choice(c)
    e = n.test
    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(e.op, ast.And) else ast.And(), [neg(x) for x in e.values]))
    return True


def rw_flip(fn, rng, tree, cls):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m and (pure(n.left) or pure(n.comparators[0]))]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
    return True


def rw_splitand(fn, rng, tree, cls):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And)]
    if not c:
        return False
    n = rng.choice(c)
    v = n.test.values
    rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
    n.test = v[0]
    n.body = [ast.If(rest, n.body, [])]
    return True


def rw_commute(fn, rng, tree, cls):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult,)) and pure(n) and not
         (isinstance(n.left, (ast.List, ast.Constant)) and not isinstance(getattr(n.left, 'value', 0), (int, float))) and not isinstance(n.left, ast.List)]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.right = n.right, n.left
    return True


def rw_splittuple(fn, rng, tree, cls):
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
                if not (names(s.targets[0]) & names(s.value)):
                    c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i:i + 1] = [ast.Assign([x], y) for x, y in zip(s.targets[0].elts, s.value.elts)]
    return True


def rw_unpack(fn, rng, tree, cls):
    """for a, b in xs -> for t in xs: a, b = t"""
    if not own(fn):
        return False
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple)]
    if not c:
        return False
    n = rng.choice(c)
    t = fresh_name(fn, 'entry')
    n.body.insert(0, ast.Assign([n.target], ast.Name(t, ast.Load())))
    n.target = ast.Name(t, ast.Store())
    return True


def rw_alias(fn, rng, tree, cls):
    """hoist self.attr into a local at the top, where nothing in the function assigns it"""
    if not own(fn) or not fn.args.args or fn.args.args[0].arg != 'self':
        return False
    cnt = collections.Counter()
    bad = set()
    calls = has(fn, ast.Call)
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            if not isinstance(n.ctx, ast.Load):
                bad.add(n.attr)
            cnt[n.attr] += 1
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
            bad.add(n.func.attr)
            bad.add('*')
    c = [a for a, k in cnt.items() if a not in bad and k >= 2]
    if not c or '*' in bad or has(fn, ast.Yield) or 'super' in names(fn):
        return False
    a = rng.choice(sorted(c))
    t = fresh_name(fn, a.strip('_') + '_loc')
    first = fn.body[0]
    doc = isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant)
    # only when the first statement already reads it (an AttributeError would come at the same place)
    for n in ast.walk(fn):
        for fld, v in ast.iter_fields(n):
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' and v.attr == a:
                setattr(n, fld, ast.Name(t, ast.Load()))
            elif isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a:
                        v[j] = ast.Name(t, ast.Load())
    fn.body.insert(1 if doc else 0, ast.Assign([ast.Name(t, ast.Store())], ast.Attribute(ast.Name('self', ast.Load()), a, ast.Load())))
    return True


def rw_helper(fn, rng, tree, cls):
    """extract consecutive statements into a new private helper"""
    if not own(fn) or has(fn, ast.Yield) or fn.name == '__new__':
        return False
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    if fn.args.vararg:
        params.append(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.append(fn.args.kwarg.arg)
    c = []
    for n, f, b in blocks(fn):
        if any(isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is not fn and n in list(ast.walk(p)) for p in ast.walk(fn)):
            continue
        for i in range(len(b)):
            for j in range(i + 1, min(i + 6, len(b) + 1)):
                blk = ast.Module(b[i:j], [])
                if has(blk, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.ClassDef, ast.Delete) or \
                        any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(blk)):
                    # breaks inside own loops are fine
                    if has(blk, ast.Return, ast.Yield, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.ClassDef, ast.Delete) or \
                            any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(blk)) or not all(
                                isinstance(s, (ast.For, ast.While)) or not has(s, ast.Break, ast.Continue) for s in b[i:j]):
                        continue
                if i == 0 and n is fn and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                    continue
                c.append((n, b, i, j))
    if not c:
        return False
    n, b, i, j = rng.choice(c)
    blk = ast.Module(b[i:j], [])
    st = stores(blk)
    # variables read
    ld = names(blk, ast.Load) | {x.target.id for x in ast.walk(blk) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    locs = set(params) | stores(fn)
    ins = sorted(x for x in ld if x in locs)
    # definitely assigned first inside the block at its top level?
    defd = set()
    need = []
    seen = set()
    for s in b[i:j]:
        rd = names(s, ast.Load) | {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        if isinstance(s, ast.Assign):
            rd = names(s.value, ast.Load) | set().union(*[names(t_, ast.Load) for t_ in s.targets])
            for x in rd:
                if x not in seen:
                    need.append(x)
            seen |= stores(s)
        else:
            inner = set()
            if isinstance(s, ast.For):
                inner = names(s.target)
                itn = names(s.iter)
                rd2 = (rd - inner) | itn
            else:
                rd2 = rd
            # comprehension variables are local
            comp = set()
            for x in ast.walk(s):
                if isinstance(x, ast.comprehension):
                    comp |= names(x.target)
            for x in rd2 - (comp - stores(fn)):
                if x not in seen:
                    need.append(x)
    # inputs must be definitely assigned before the block: parameters, or assigned in earlier top-level statements of enclosing blocks
    definite = set(params)

    def collect(body, upto):
        for s in body:
            if s is upto or upto in list(ast.walk(s)):
                if isinstance(s, (ast.For,)):
                    definite.update(names(s.target))
                if s is not upto:
                    for fld in ('body', 'orelse', 'finalbody'):
                        bb = getattr(s, fld, None)
                        if isinstance(bb, list) and any(upto is x or upto in list(ast.walk(x)) for x in bb if isinstance(x, ast.AST)):
                            collect(bb, upto)
                return
            if isinstance(s, (ast.Assign, ast.With)):
                definite.update(stores(s))
            if isinstance(s, ast.If) and s.orelse:
                a1, a2 = set(), set()
                for x in s.body:
                    if isinstance(x, ast.Assign):
                        a1 |= stores(x)
                for x in s.orelse:
                    if isinstance(x, ast.Assign):
                        a2 |= stores(x)
                definite.update(a1 & a2)
    collect(fn.body, b[i])
    ins = [x for x in dict.fromkeys(need) if x in locs]
    if any(x not in definite for x in ins):
        return False
    # names read after the block, or anywhere if inside a loop
    loops = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While)) and b[i] in list(ast.walk(x)) and x is not b[i]]
    after = collections.Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store))
    for x in ast.walk(fn):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            after[x.target.id] += 1
    inside = collections.Counter(x.id for x in ast.walk(blk) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store))
    for x in ast.walk(blk):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            inside[x.target.id] += 1
    outs = sorted(x for x in st if after[x] > inside[x] or (loops and x in ld and x in definite and False))
    if loops:
        # loop-carried through the block itself
        for x in st:
            if x in need and x not in outs:
                outs.append(x)
    # outputs must be definitely assigned by the block or be inputs
    topdef = set()
    for s in b[i:j]:
        if isinstance(s, (ast.Assign,)):
            topdef |= stores(s)
        if isinstance(s, ast.If) and s.orelse:
            a1, a2 = set(), set()
            for x in s.body:
                if isinstance(x, ast.Assign):
                    a1 |= stores(x)
            for x in s.orelse:
                if isinstance(x, ast.Assign):
                    a2 |= stores(x)
            topdef |= a1 & a2
    for o in outs:
        if o not in topdef and o not in ins:
            if o in definite:
                ins.append(o)
            else:
                return False
    method = cls is not None and 'self' in ins and fn.args.args and fn.args.args[0].arg == 'self'
    ins = [x for x in ins if x != 'self']
    hname = '_%s_%s' % (fn.name.strip('_'), rng.choice(['part', 'step', 'helper', 'impl']))
    body = list(b[i:j])
    if outs:
        rv = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())
        body.append(ast.Return(rv))
    args = ast.arguments([], [ast.arg(x) for x in (['self'] if method else []) + ins], None, [], [], None, [])
    h = ast.FunctionDef(hname, args, body, [], None)
    if hasattr(h, 'type_params'):
        h.type_params = []
    callee = ast.Attribute(ast.Name('self', ast.Load()), hname, ast.Load()) if method else ast.Name(hname, ast.Load())
    call = ast.Call(callee, [ast.Name(x, ast.Load()) for x in ins], [])
    if not outs:
        b[i:j] = [ast.Expr(call)]
    elif len(outs) == 1:
        b[i:j] = [ast.Assign([ast.Name(outs[0], ast.Store())], call)]
    else:
        b[i:j] = [ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)]
    if method:
        cls.body.append(h)
    else:
        tree.body.append(h)
    return True


def rw_nested(fn, rng, tree, cls):
    """extract an expression into a helper function of its free locals"""
    if not own(fn):
        return False
    c = []
    locs = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)} | stores(fn)
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call)) and not has(
                    s.value, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Yield) and 'super' not in names(s.value):
                c.append(s)
    if not c:
        return False
    s = rng.choice(c)
    ins = sorted(x for x in names(s.value) if x in locs)
    if fn.name == '__new__':
        return False
    imported = stores(fn) - names(fn, ast.Store) - {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    if set(ins) & imported:
        return False
    hname = '_%s_expr' % fn.name.strip('_')
    args = ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, [])
    h = ast.FunctionDef(hname, args, [ast.Return(s.value)], [], None)
    if hasattr(h, 'type_params'):
        h.type_params = []
    s.value = ast.Call(ast.Name(hname, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
    tree.body.append(h)
    return True


def rw_aug(fn, rng, tree, cls):
    """x += c -> x = x + c for counters started at a number"""
    num = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)) and isinstance(n.targets[0], ast.Name):
            num.add(n.targets[0].id)
    c = []
    for n, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in num:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return True


def rw_chain(fn, rng, tree, cls):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 2 and pure(n.test)]
    if not c:
        return False
    n = rng.choice(c)
    e = n.test
    n.test = ast.BoolOp(ast.And(), [ast.Compare(e.left, [e.ops[0]], [e.comparators[0]]), ast.Compare(e.comparators[0], [e.ops[1]], [e.comparators[1]])])
    return True


def rw_inline(fn, rng, tree, cls):
    """inline a local assigned once and used once in the next statement"""
    if not own(fn):
        return False
    cnt = collections.Counter(n.id for n in ast.walk(fn) if isinstance(n, ast.Name))
    c = []
    for n, f, b in blocks(fn):
        for i in range(len(b) - 1):
            s, q = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and cnt[s.targets[0].id] == 2 and pure(s.value) and \
                    isinstance(q, (ast.Assign, ast.Return, ast.Expr)) and s.targets[0].id in names(q, ast.Load) and not (
                        has(q, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp)):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    s, q = b[i], b[i + 1]
    x = s.targets[0].id

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return copy.deepcopy(s.value) if n.id == x else n
    b[i + 1] = R().visit(q)
    del b[i]
    return True


def rw_noop(fn, rng, tree, cls):
    """a statement that does nothing, a log line, an unused local"""
    k = rng.randrange(4)
    n, f, b = rng.choice(list(blocks(fn)))
    i = rng.randrange(len(b) + 1)
    if i == 0 and b is fn.body:
        i = min(1, len(b))
    s = [ast.Pass(), ast.parse('_unused_ = None').body[0], ast.parse('if False:\n  pass').body[0], ast.parse('_unused_ = 0').body[0]][k]
    if leaves(b) and i == len(b):
        i = len(b) - 1
    b.insert(i, s)
    return True


def rw_dictlit(fn, rng, tree, cls):
    c = []
    for n in ast.walk(fn):
        for fld, v in ast.iter_fields(n):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and v.keywords and all(k.arg for k in v.keywords):
                c.append((n, fld, v))
    if not c:
        return False
    n, fld, v = rng.choice(c)
    setattr(n, fld, ast.Dict([ast.Constant(k.arg) for k in v.keywords], [k.value for k in v.keywords]))
    return True


def rw_nonecheck(fn, rng, tree, cls):
    """if x is not None: A else: B -> if x is None: B else: A"""
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse and isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], (ast.Is, ast.IsNot))]
    if not c:
        return False
    n = rng.choice(c)
    n.test.ops = [ast.IsNot() if isinstance(n.test.ops[0], ast.Is) else ast.Is()]
    n.body, n.orelse = n.orelse, n.body
    return True


def rw_retvar(fn, rng, tree, cls):
    """single exit: return a / return b at the tail -> result variable"""
    if not own(fn):
        return False
    b = fn.body
    if not (b and isinstance(b[-1], ast.Return) and b[-1].value is not None and len(b) >= 2 and isinstance(b[-2], ast.If) and not b[-2].orelse
            and len(b[-2].body) >= 1 and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None):
        return False
    t = fresh_name(fn, 'result')
    iff = b[-2]
    if has(ast.Module(iff.body[:-1], []), ast.Return):
        return False
    iff.body[-1] = ast.Assign([ast.Name(t, ast.Store())], iff.body[-1].value)
    iff.orelse = [ast.Assign([ast.Name(t, ast.Store())], b[-1].value)]
    b[-1] = ast.Return(ast.Name(t, ast.Load()))
    return True


def rw_distribute(fn, rng, tree, cls):
    """a*(b+c) -> a*b + a*c on pure scalar-looking expressions"""
    c = []
    for n in ast.walk(fn):
        for fld, v in ast.iter_fields(n):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.right, ast.BinOp) and isinstance(v.right.op, (ast.Add, ast.Sub)) and pure(v):
                c.append((n, fld, v))
    if not c:
        return False
    n, fld, v = rng.choice(c)
    setattr(n, fld, ast.BinOp(ast.BinOp(v.left, ast.Mult(), v.right.left), v.right.op, ast.BinOp(copy.deepcopy(v.left), ast.Mult(), v.right.right)))
    return True


def rw_sumloop(fn, rng, tree, cls):
    """acc = 0; for x in xs: acc += e  ->  acc = sum(e for x in xs)"""
    c = []
    for n, f, b in blocks(fn):
        for i in range(1, len(b)):
            s, p = b[i], b[i - 1]
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.AugAssign) and isinstance(s.body[0].op, ast.Add) and \
                    isinstance(s.body[0].target, ast.Name) and isinstance(p, ast.Assign) and isinstance(p.value, ast.Constant) and p.value.value == 0 and \
                    isinstance(p.targets[0], ast.Name) and p.targets[0].id == s.body[0].target.id and p.targets[0].id not in names(s.body[0].value):
                c.append((b, i, s, p))
    if not c:
        return False
    b, i, s, p = rng.choice(c)
    p.value = ast.Call(ast.Name('sum', ast.Load()), [ast.GeneratorExp(s.body[0].value, [ast.comprehension(s.target, s.iter, [], 0)])], [])
    del b[i]
    return True


def rw_kw(fn, rng, tree, cls):
    """positional -> keyword for calls of functions of the tree (unique signature)"""
    R = mutate._ref
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and cls is not None:
                L = R.methods.get(f.attr, [])
                sg = {tuple(a.arg for a in x.node.args.args) for x in L}
                if len(sg) == 1 and not any(x.node.args.vararg or x.decorators() for x in L):
                    ps = list(sg)[0][1:]
                    if len(ps) >= len(n.args):
                        c.append((n, ps))
            elif isinstance(f, ast.Name) and len(R.funcs.get(f.id, [])) == 1 and f.id not in stores(fn):
                x = R.funcs[f.id][0]
                ps = [a.arg for a in x.node.args.args]
                if len(ps) >= len(n.args) and not x.node.args.vararg:
                    c.append((n, ps))
    if not c:
        return False
    n, ps = rng.choice(c)
    a = n.args.pop()
    n.keywords.append(ast.keyword(ps[len(n.args)], a))
    return True


KINDS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('rw_')}


def one(job):
    path, qual, kinds, seed = job
    if mutate._ref is None:
        mutate._ref = program.load(REF)
    R = mutate._ref
    rng = random.Random(seed)
    tree = copy.deepcopy(R.by_path[path].tree)
    fn = mutate.find(tree, qual)
    cls = None
    if '.' in qual:
        cls = [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef) and x.name == qual.split('.')[0]][0]
    before = ast.unparse(tree)
    done = []
    for k in kinds:
        try:
            if KINDS[k](fn, rng, tree, cls):
                done.append(k)
                ast.fix_missing_locations(tree)
        except Exception as e:
            import traceback
            return job, 'rwcrash', '%s %s' % (k, traceback.format_exc()[-400:]), '', 0, done
    if not done:
        return job, 'none', '', '', 0, done
    after = ast.unparse(tree)
    tree = ast.parse(after)
    if before == after:
        return job, 'none', '', '', 0, done
    import difflib
    dl = [l for l in difflib.unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=0) if l[:2] not in ('--', '++', '@@')]
    A = mutate.build(path, tree)
    C = contract.Contracts(R, A)
    C._sum = dict(mutate._share)
    t0 = time.time()
    try:
        v = C.compare(path, qual)
        st, why = v.status, v.why
        if st == 'violated':
            why += '\n' + '\n'.join(contract.report(path, qual, v)[:8])
    except Exception as e:
        import traceback
        st, why = 'crash', traceback.format_exc()[-600:]
    for k, s in C._sum.items():
        if k[0] == id(R):
            mutate._share[k] = s
    return job, st, why, '\n'.join(dl), time.time() - t0, done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=600)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-m', default='')
    ap.add_argument('-q', default='')
    ap.add_argument('-k', default='')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-c', type=int, default=3, help='rewrites per case')
    ap.add_argument('-v', default='violated,crash,rwcrash,undecided')
    a = ap.parse_args()
    rng = random.Random(a.s)
    R = program.load(REF)
    funcs = set()
    for k in obligations.OBL:
        if k != 'P21':
            funcs |= set(obligations.expand(R, k))
    funcs = sorted(f for f in funcs if (not a.m or any(f[0].endswith(x) for x in a.m.split(','))) and (not a.q or a.q in f[1]) and '.setter' not in f[1])
    funcs = [f for f in funcs if mutate.find(R.by_path[f[0]].tree, f[1]) is not None]
    w = [len(list(ast.walk(mutate.find(R.by_path[p].tree, q)))) ** .5 for p, q in funcs]
    jobs = []
    kk = a.k.split(',') if a.k else sorted(KINDS)
    for f in rng.choices(funcs, w, k=a.n):
        ks = rng.sample(kk, len(kk))
        # keep trying kinds until c applied: give a longer list, cut in worker by count
        jobs.append((f[0], f[1], ks[:max(a.c * 3, 1)] if not a.k else ks[:a.c], rng.randrange(1 << 30)))
    cnt = collections.Counter()
    bykind = collections.defaultdict(collections.Counter)
    show = a.v.split(',')
    t0 = time.time()
    with multiprocessing.Pool(a.j, maxtasksperchild=200) as p:
        for job, st, why, dl, dt, done in p.imap_unordered(one, sorted(jobs), chunksize=2):
            cnt[st] += 1
            for k in done:
                bykind[k][st] += 1
            if st in show or dt > 60:
                print('== %s %s:%s %s %.1fs seed=%d %s\n%s' % (st, job[0], job[1], ','.join(done), dt, job[3], why[:1500], dl[:3000]), flush=True)
    print(cnt, '%.0f s' % (time.time() - t0))
    for k in sorted(bykind):
        print('  %-12s' % k, dict(bykind[k]))


if __name__ == '__main__':
    main()
