"""Statement-by-statement comparison of two definitions that have the same
control structure, for functions whose value graph is too large.

The statements of both are aligned (local variables up to renaming).  Where all
statements but a few coincide, the differing expressions are compared as terms
over the variables of the function, after replacing single-definition locals by
their definitions.  Only a difference that cannot be an equivalent
re-expression is reported: the two sides then compute the same values
everywhere else, so the observable result changes with this expression."""
import ast
import copy

import value as V
import program
from terms import *
from compare import Differ

MAXSITES = 2


class NoAlign(Exception):
    pass


def params(fn):
    a = fn.args
    L = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for x in (a.vararg, a.kwarg):
        if x is not None:
            L.append(x.arg)
    return L


def local_order(fn):
    """local names in order of first occurrence"""
    ps = set(params(fn))
    st = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            st.add(n.id)
    out = []

    def go(n):
        if isinstance(n, ast.Name) and n.id in st and n.id not in ps and n.id not in out:
            out.append(n.id)
        if isinstance(n, ast.Assign):
            go(n.value)
            for x in n.targets:
                go(x)
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in fn.body:
        go(s)
    return out


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def clean(body):
    out = []
    for s in body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and \
                s.value.func.id in ('print', 'debug', 'info'):
            continue
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and s.test.value is True:
            out += clean(s.body)
            continue
        if isinstance(s, ast.If) and not clean(s.body) and not clean(s.orelse):
            continue
        if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Constant) and \
                ast.unparse(s.test) == '0 != 0':
            out += clean(s.orelse)
            continue
        out.append(s)
    return out


def D(x):
    return ast.dump(x)


class Align(object):
    def __init__(self):
        self.sites = []     # ('expr', ref expr, act expr) | ('del', stmt) | ('add', stmt) | ('move', ...)

    def blocks(self, A, B):
        A, B = clean(A), clean(B)
        while A and B and D(A[0]) == D(B[0]):
            A, B = A[1:], B[1:]
        while A and B and D(A[-1]) == D(B[-1]):
            A, B = A[:-1], B[:-1]
        if not A and not B:
            return
        J = (ast.Break, ast.Continue)
        if A and B and isinstance(A[-1], J) and isinstance(B[-1], J) and type(A[-1]) is not type(B[-1]):
            # the increment of a C loop precedes its `continue`
            a, b = (A, B) if isinstance(A[-1], ast.Break) else (B, A)
            if len(a) == 1:
                self.sites.append(('exit', A[-1], B[-1]))
                return
        if len(A) == len(B):
            for a, b in zip(A, B):
                self.stmt(a, b)
            return
        if not B and len(A) == 1:
            self.sites.append(('del', A[0], None))
            return
        if not A and len(B) == 1:
            self.sites.append(('add', None, B[0]))
            return
        raise NoAlign('different statements')

    def stmt(self, a, b):
        if D(a) == D(b):
            return
        if type(a) is not type(b):
            if isinstance(a, (ast.Break, ast.Continue)) and isinstance(b, (ast.Break, ast.Continue)):
                self.sites.append(('exit', a, b))
                return
            if isinstance(a, (ast.Assign, ast.AugAssign)) and isinstance(b, (ast.Assign, ast.AugAssign)):
                self.assign(a, b)
                return
            raise NoAlign('%s against %s' % (type(a).__name__, type(b).__name__))
        if isinstance(a, (ast.Assign, ast.AugAssign)):
            return self.assign(a, b)
        if isinstance(a, ast.If):
            if D(a.test) != D(b.test):
                self.sites.append(('cond', a.test, b.test))
            self.blocks(a.body, b.body)
            self.blocks(a.orelse, b.orelse)
            return
        if isinstance(a, ast.While):
            if D(a.test) != D(b.test):
                self.sites.append(('cond', a.test, b.test))
            self.blocks(a.body, b.body)
            return
        if isinstance(a, ast.For):
            if D(a.target) != D(b.target):
                raise NoAlign('loop target')
            if D(a.iter) != D(b.iter):
                self.sites.append(('expr', a.iter, b.iter))
            self.blocks(a.body, b.body)
            return
        if isinstance(a, ast.Return):
            if a.value is None or b.value is None:
                raise NoAlign('return')
            self.sites.append(('expr', a.value, b.value))
            return
        if isinstance(a, ast.Expr):
            self.sites.append(('expr', a.value, b.value))
            return
        raise NoAlign(type(a).__name__)

    def assign(self, a, b):
        ta, va = self.parts(a)
        tb, vb = self.parts(b)
        if type(a) is not type(b) and D(ta) == D(tb) and D(a.value) == D(b.value):
            self.sites.append(('accumulate', a, b))
            return
        if D(ta) != D(tb):
            if not (isinstance(ta, ast.Subscript) and isinstance(tb, ast.Subscript) and D(ta.value) == D(tb.value)):
                raise NoAlign('assigned variable')
            self.sites.append(('expr', load(ta.slice), load(tb.slice)))
            if isinstance(a, ast.AugAssign) and isinstance(b, ast.AugAssign) and type(a.op) is type(b.op) and \
                    D(a.value) == D(b.value):
                return
            if D(va) != D(vb):
                self.sites.append(('expr', va, vb))
            return
        self.sites.append(('expr', va, vb))

    def parts(self, s):
        if isinstance(s, ast.AugAssign):
            return s.target, ast.BinOp(load(s.target), s.op, s.value)
        if len(s.targets) != 1:
            raise NoAlign('targets')
        return s.targets[0], s.value


def load(x):
    x = copy.deepcopy(x)
    for n in ast.walk(x):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return x


def single_defs(fn):
    """locals with one simple definition"""
    cnt = {}
    val = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for tg in n.targets:
                for x in ast.walk(tg):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        cnt[x.id] = cnt.get(x.id, 0) + 1
                        val[x.id] = n.value if tg is x else None
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            cnt[n.target.id] = cnt.get(n.target.id, 0) + 2
        elif isinstance(n, ast.For):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    cnt[x.id] = cnt.get(x.id, 0) + 1
                    val[x.id] = 'loop'
    ps = set(params(fn))
    defs, atoms, multi = {}, set(ps), set()
    for n, c in cnt.items():
        if n in ps:
            multi.add(n)
        elif c == 1 and val.get(n) is not None and val[n] != 'loop':
            defs[n] = val[n]
        elif c >= 1 and val.get(n) == 'loop':
            atoms.add(n)
        else:
            multi.add(n)
    return defs, atoms - multi, multi


class Inl(ast.NodeTransformer):
    def __init__(self, defs, depth=0):
        self.defs = defs
        self.depth = depth

    def visit_Name(self, n):
        d = self.defs.get(n.id)
        if d is not None and self.depth < 8:
            return Inl(self.defs, self.depth + 1).visit(copy.deepcopy(d))
        return n


def names(x):
    return {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}


def term_of(prog, mod, fn, expr, cond=False):
    node = ast.parse('def _x_():\n  return 0').body[0]
    if cond:
        expr = ast.IfExp(expr, ast.Constant(1), ast.Constant(0))
    node.body[0].value = expr
    ast.fix_missing_locations(node)
    f = program.Func('_x_', node, mod)
    ev = V.Evaluator(prog, lambda f: False)
    bind = {n: t('p', n) for n in names(expr) | set(params(fn)) if n not in mod.imports and n not in mod.funcs}
    s = ev.summarize(f, None, bind)
    if s.unks:
        raise NoAlign('not understood')
    extra = [x for ge in s.events for x in ge]
    for k in sorted(s.mem, key=str):
        extra += ([k] if isinstance(k, T) else [x for x in k if isinstance(x, T)]) + [s.mem[k]]
    if not extra:
        return s.ret
    return t('did', s.ret, *extra)


def compare(ref, rf, act, af):
    """(status, reason, [(what, ref term, act term)])"""
    if params(rf.node) != params(af.node):
        return 'undecided', 'parameters', []
    rn, an = rf.node, copy.deepcopy(af.node)
    ro, ao = local_order(rn), local_order(an)
    if ro != ao and len(ro) == len(ao):
        tmp = {a: r for r, a in zip(ro, ao)}
        if set(ro) != set(ao) or True:
            an2 = Ren(tmp).visit(copy.deepcopy(an))
            A1, A2 = Align(), Align()
            n1 = count(A1, rn, an)
            n2 = count(A2, rn, an2)
            if n2 < n1:
                an = an2
    A = Align()
    try:
        A.blocks(rn.body, an.body)
    except NoAlign as e:
        return 'undecided', 'statements do not align: %s' % e, []
    rd, ra, rm = single_defs(rn)
    ad, aa, am = single_defs(an)
    bad = []
    for kind, x, y in A.sites:
        if kind in ('del', 'add'):
            s = x or y
            if isinstance(s, ast.Assign) and all(isinstance(q, ast.Name) for q in s.targets):
                used = {n.id for n in ast.walk(rn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} | \
                    {n.id for n in ast.walk(an) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                if not any(q.id in used for q in s.targets):
                    continue
            if kind == 'add' and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and \
                    s.targets[0].id not in ro:
                # a new local (a temporary)
                A.newlocal = True
                ad[s.targets[0].id] = s.value
                continue
            bad.append((kind, S(ast.unparse(s)[:200]) if x else S('-'), S(ast.unparse(s)[:200]) if y else S('-')))
            continue
        if kind == 'accumulate':
            bad.append((kind, S(ast.unparse(x)), S(ast.unparse(y))))
            continue
        if kind == 'exit':
            bad.append(('loop exit', S(type(x).__name__.lower()), S(type(y).__name__.lower())))
            continue
        try:
            tx = term_of(ref, rf.module, rn, load(x), kind == 'cond')
            ty = term_of(act, af.module, an, load(y), kind == 'cond')
            if tx is ty or Differ(limit=800, maxsplit=8).diff(tx, ty) == []:
                continue
            # an object the statement changes is not its initial value
            hold = set()
            if tx.op == 'did' or ty.op == 'did':
                for e in (x, y):
                    for n in ast.walk(e):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                            hold |= names(n.func.value)
            ix = Inl({k: d for k, d in rd.items() if k not in hold}).visit(load(x))
            iy = Inl({k: d for k, d in ad.items() if k not in hold}).visit(load(y))
            ux = term_of(ref, rf.module, rn, ix, kind == 'cond')
            uy = term_of(act, af.module, an, iy, kind == 'cond')
            dd = Differ(limit=800, maxsplit=8)
            if ux is uy or dd.diff(ux, uy) == []:
                continue
            if dd.overflow:
                return 'undecided', 'expression too big', []
        except (NoAlign, TooBig) as e:
            return 'undecided', str(e), []
        nx, ny = names(ix), names(iy)
        odd = nx ^ ny
        known = set(params(rn)) | set(ro) | set(rf.module.funcs) | set(rf.module.imports) | \
            {n.id for n in ast.walk(rn) if isinstance(n, ast.Name)}
        if (ny - nx) - known:
            return 'undecided', 'new names %s' % sorted((ny - nx) - known), []
        if names(load(x)) != names(load(y)) and odd & (rm | am):
            # a variable of several definitions may stand for the expression
            swapped = len(nx - ny) == 1 and len(ny - nx) == 1 and same_but(ix, iy, nx - ny, ny - nx)
            if not swapped:
                return 'undecided', 'variables %s' % sorted(odd & (rm | am)), []
        bad.append((kind, tx, ty))
    if not bad:
        return 'equal', 'statement by statement', []
    if len(bad) > MAXSITES:
        return 'undecided', '%d expressions differ' % len(bad), []
    return 'violated', bad[0][0], bad


def same_but(x, y, a, b):
    """y is x with one variable exchanged for another"""
    (p,), (q,) = a, b
    return D(Ren({p: q}).visit(copy.deepcopy(x))) == D(y)


def count(A, rn, an):
    try:
        A.blocks(rn.body, an.body)
    except NoAlign:
        return 10 ** 6
    return len(A.sites)
