"""Hash-consed value-graph terms and their algebraic normal form.

A term denotes the value a Python expression computes, as a function of the
enclosing function's inputs.  Terms are interned: two terms are equal iff they
are the same object.  Smart constructors (mk_*) keep terms in normal form:
sums/products are polynomials with rational coefficients, comparisons are put
on one side of zero, min/max become relu atoms, conditionals absorb common
parts, list concatenations are flattened into parts, bound variables of loops
are named by height so that alpha-equivalent loops coincide.
"""
from fractions import Fraction
import sys
import time
sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', 'uid', 'h', 'free')
    _tab = {}
    _n = [0]

    def __repr__(self):
        return show(self)


def _iter_T(args):
    out = []
    for a in args:
        c = a.__class__
        if c is T:
            out.append(a)
        elif c is tuple:
            _collect_T(a, out)
    return out


def _collect_T(args, out):
    for a in args:
        c = a.__class__
        if c is T:
            out.append(a)
        elif c is tuple:
            _collect_T(a, out)


BINDERS = {'for', 'sum', 'any', 'first', 'mu', 'loopev', 'lastv', 'lam',
           'until'}


class TooBig(Exception):
    pass


class Deadline(object):
    """wall-clock limit of the current comparison (None: no limit)"""
    at = None
    n = 0


def deadline_tick():
    Deadline.n += 1
    if Deadline.n & 1023 == 0 and Deadline.at is not None and time.time() > Deadline.at:
        raise TooBig('time budget exceeded')


NOFREE = frozenset()
LEAFVAR = {'bv', 'k', 'carry', 'ref'}


def t(op, *args):
    k = (op,) + args
    r = T._tab.get(k)
    if r is None:
        deadline_tick()
        r = T()
        r.op = op
        r.args = args
        T._n[0] += 1
        r.uid = T._n[0]
        h = 0
        fv = NOFREE
        for x in _iter_T(args):
            if x.h > h:
                h = x.h
            f = x.free
            if f is not fv and f:
                if not fv:
                    fv = f
                elif not f <= fv:
                    fv = f if fv <= f else fv | f
        if op in LEAFVAR:
            fv = frozenset((r,))
            if op == 'bv':
                h = args[0]
        r.h = h
        r.free = fv
        T._tab[k] = r
    return r


NONE = t('none')
TRUE = t('true')
FALSE = t('false')
ZERO = t('poly')
ELL = t('ellipsis')


def S(s):
    return t('str', s)


def G(name):
    return t('g', name)


def fresh(kind):
    fresh.n += 1
    return t(kind, fresh.n)


fresh.n = 0

# --------------------------------------------------------------- polynomials


def num(x):
    if isinstance(x, Fraction):
        c = x
    elif isinstance(x, float):
        if x != x:
            return G('nan')
        if x in (float('inf'), float('-inf')):
            return G('inf') if x > 0 else mk_neg(G('inf'))
        c = Fraction(repr(x))
    else:
        c = Fraction(x)
    return from_poly({(): c})


def is_num(x):
    return x.op == 'poly' and (x.args == () or
                               (len(x.args) == 1 and x.args[0][0] == ()))


def numval(x):
    if x.op != 'poly':
        return None
    if x.args == ():
        return Fraction(0)
    if len(x.args) == 1 and x.args[0][0] == ():
        return x.args[0][1]
    return None


def as_poly(x):
    if x.op == 'poly':
        return dict(x.args)
    if x is TRUE:
        return {(): Fraction(1)}
    if x is FALSE:
        return {}
    return {((x, 1),): Fraction(1)}


def _monokey(m):
    return tuple((a.uid, e) for a, e in m)


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 \
            and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    return t('poly', *items)


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda ae: ae[0].uid))


LISTY = ('list', 'rep')


def is_listy(x):
    if x.op in LISTY or x.op == 'tup':
        return True
    if x.op == 'phi':
        return is_listy(x.args[1]) and is_listy(x.args[2])
    if x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] in (
            'list', 'sorted', 'tuple'):
        return True
    return False


def is_stry(x):
    return x.op in ('str', 'fmt', 'strcat') or (
        x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] in ('str', 'repr'))


def is_tupley(x):
    return x.op == 'tup' or (x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] == 'tuple' and
                             len(x.args[1]) == 1 and x.args[1][0].op == 'list')


def tuple_parts(x):
    if x.op == 'tup':
        return tuple(('it', y) for y in x.args)
    if is_tupley(x):
        return x.args[1][0].args
    return (('splat', x),)


def mk_tuple(parts):
    l = mk_list(parts)
    if all(p[0] == 'it' for p in l.args):
        return t('tup', *[p[1] for p in l.args])
    return t('call', G('tuple'), (l,), (), 0)


def negative(x):
    """canonical sign: x is written as minus something"""
    d = as_poly(x)
    nz = [(m, c) for m, c in d.items() if m != ()] or list(d.items())
    return bool(nz) and max(nz, key=lambda z: _monokey(z[0]))[1] < 0


def mk_add(a, b):
    if is_stry(a) or is_stry(b):
        return mk_strcat(a, b)
    if a.op == 'list' or b.op == 'list' or a.op == 'rep' or b.op == 'rep':
        return mk_concat(a, b)
    if a.op == 'tup' and b.op == 'tup':
        return t('tup', *(a.args + b.args))
    if is_tupley(a) or is_tupley(b):
        return mk_tuple(tuple_parts(a) + tuple_parts(b))
    d = as_poly(a)
    for m, c in as_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def mk_sub(a, b):
    return mk_add(a, mk_neg(b)) if not (is_stry(a)) else t('op', 'sub', a, b)


def mk_rep(a, n):
    """[x] * n"""
    v = numval(n)
    if a.op == 'list' and v is not None and v.denominator == 1 and 0 <= v * len(a.args) <= 16 and \
            all(p[0] == 'it' and p[1].op in ('poly', 'at', 'p', 'k', 'attr', 'mcall', 'call', 'idx') for p in a.args):
        return t('list', *(a.args * int(v)))
    if a.op == 'list' and a.args and all(p[0] == 'it' and (p[1].op in ('none', 'str', 'true', 'false') or is_num(p[1]))
                                         for p in a.args):
        v = numval(n)
        if v is not None and v.denominator == 1 and 0 <= v * len(a.args) <= 16:
            return t('list', *(a.args * int(v)))
        if v is None and len(a.args) == 1:
            b, (d, p) = bind(fresh('k'), t('range', n), a.args)
            return t('list', ('for', t('for', b, d, p)))
    return t('rep', a, n)


def mk_mul(a, b):
    if a.op in ('list', 'str') or (a.op == 'rep'):
        return mk_rep(a, b)
    if b.op in ('list', 'str') or (b.op == 'rep'):
        return mk_rep(b, a)
    if a.op == 'tup':
        return t('rep', a, b)
    if b.op == 'tup':
        return t('rep', b, a)
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) > 1 and len(pb) > 1 and len(pa) * len(pb) > 64:
        a1, ca = _content(a)
        b1, cb = _content(b)
        return from_poly({mono_mul(((a1, 1),), ((b1, 1),)): ca * cb})
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def _content(p):
    """factor the rational content out of a polynomial: p = c * p1"""
    if p.op != 'poly' or not p.args:
        return p, Fraction(1)
    c = p.args[-1][1]
    if c == 1:
        return p, Fraction(1)
    return from_poly({m: k / c for m, k in p.args}), c


def mk_pow(a, e):
    """a ** e"""
    n = numval(e)
    if n is None:
        return t('pow', a, e)
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return num(1)
        pa = as_poly(a)
        if len(pa) == 0:
            return ZERO if n > 0 else t('pow', a, e)
        if len(pa) == 1:
            (m, c), = pa.items()
            return from_poly({tuple((x, k * n) for x, k in m): c ** n})
        if 0 < n <= 4:
            r = a
            for i in range(n - 1):
                r = mk_mul(r, a)
            return r
        a1, c = _content(a)
        return from_poly({((a1, n),): c ** n})
    return t('pow', a, e)


def mk_div(a, b):
    return mk_mul(a, mk_pow(b, num(-1)))


def mk_strcat(a, b):
    pa = a.args if a.op == 'strcat' else (a,)
    pb = b.args if b.op == 'strcat' else (b,)
    r = list(pa)
    for x in pb:
        if r and r[-1].op == 'str' and x.op == 'str':
            r[-1] = S(r[-1].args[0] + x.args[0])
        else:
            r.append(x)
    return r[0] if len(r) == 1 else t('strcat', *r)


# ---------------------------------------------------------------- list parts
# a 'list' term's args are parts: ('it', v) | ('splat', v) |
# ('cond', c, parts_true, parts_false) | ('for', forterm)

def parts_of(x):
    if x.op == 'list':
        return x.args
    if x.op == 'phi':
        a, b = x.args[1], x.args[2]
        if is_listy(a) or is_listy(b):
            return phi_parts(x.args[0], parts_of(a), parts_of(b))
    if x.op == 'tup':
        return tuple(('it', y) for y in x.args)
    return (('splat', x),)


def phi_parts(c, pa, pb):
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
        i += 1
    pre = pa[:i]
    pa, pb = pa[i:], pb[i:]
    j = 0
    while j < len(pa) and j < len(pb) and pa[-1 - j] == pb[-1 - j]:
        j += 1
    suf = pa[len(pa) - j:] if j else ()
    if j:
        pa, pb = pa[:-j], pb[:-j]
    if not pa and not pb:
        return pre + suf
    if c.op == 'not':
        c, pa, pb = c.args[0], pb, pa
    if len(pa) == 1 and len(pb) == 1 and pa[0][0] == 'it' and pb[0][0] == 'it':
        return pre + (('it', mk_phi(c, pa[0][1], pb[0][1])),) + suf
    return pre + (('cond', c, pa, pb),) + suf


def flipped(c):
    """the negation of c when that is the form conditions are kept in (chosen
    by structure only, so that it does not depend on creation order)"""
    if c.op == 'or':
        nc = mk_not(c)
        return nc if nc.op == 'and' else None
    if c.op == 'lt0':
        nc = mk_not(c)
        return nc if nc.op == 'le0' else None
    if c.op == 'le0':
        nc = mk_not(c)
        if nc.op == 'le0':
            p = c.args[0]
            k = dict(p.args).get((), 0) if p.op == 'poly' else 0
            if k > 0:
                return nc
    return None


def mk_list(parts):
    out = []
    for p in parts:
        if p[0] == 'splat':
            v = p[1]
            if v.op == 'list':
                out.extend(v.args)
                continue
            if v.op == 'tup':
                out.extend(('it', y) for y in v.args)
                continue
            if v.op == 'phi' and (is_listy(v.args[1]) or is_listy(v.args[2])):
                out.extend(parts_of(v))
                continue
        if p[0] == 'cond':
            c, a, b = p[1:]
            if c is TRUE:
                out.extend(mk_list(a).args)
                continue
            if c is FALSE:
                out.extend(mk_list(b).args)
                continue
            if any(q[0] != 'it' for q in a):
                a = mk_list(a).args
            if any(q[0] != 'it' for q in b):
                b = mk_list(b).args
            if len(a) == 1 and len(b) == 1 and a[0][0] == 'for' and b[0][0] == 'for':
                # the same loop on both sides
                x, y = a[0][1], b[0][1]
                if x.args[1] is y.args[1] and len(x.args[2]) == 1 and len(y.args[2]) == 1 and \
                        x.args[2][0][0] == 'it' and y.args[2][0][0] == 'it' and not occurs(x.args[1], x.args[0]):
                    k = fresh('k')
                    e1 = subst(x.args[2][0][1], {x.args[0]: k})
                    e2 = subst(y.args[2][0][1], {y.args[0]: k})
                    bb, (d, ps) = bind(k, x.args[1], (('it', mk_phi(c, e1, e2)),))
                    out.append(('for', t('for', bb, d, ps)))
                    continue
            p = ('cond', c, a, b)
            if a == b:
                out.extend(a)
                continue
            if c.op == 'not':
                p = ('cond', c.args[0], b, a)
            else:
                nc = flipped(c)
                if nc is not None:
                    p = ('cond', nc, b, a)
        out.append(p)
    return t('list', *out)


def mk_concat(a, b):
    return mk_list(parts_of(a) + parts_of(b))


# ----------------------------------------------------------------- booleans

BOOLOPS = ('and', 'or', 'not', 'lt0', 'le0', 'eq', 'isnone', 'truth', 'in',
           'is', 'any', 'exc', 'true', 'false', 'isinst', 'hasattr')


def is_bool(x):
    return x.op in BOOLOPS


_not_memo = {}
_and_memo = {}
_or_memo = {}
_neg_memo = {}


def mk_not(c):
    r = _not_memo.get(c)
    if r is None:
        r = _mk_not(c)
        _not_memo[c] = r
    return r


def mk_and(*cs):
    r = _and_memo.get(cs)
    if r is None:
        r = _mk_and(*cs)
        _and_memo[cs] = r
    return r


def mk_or(*cs):
    r = _or_memo.get(cs)
    if r is None:
        r = _mk_or(*cs)
        _or_memo[cs] = r
    return r


def mk_neg(a):
    r = _neg_memo.get(a)
    if r is None:
        r = from_poly({m: -c for m, c in as_poly(a).items()})
        _neg_memo[a] = r
    return r


def _mk_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return mk_or(*[mk_not(x) for x in c.args])
    if c.op == 'or':
        return mk_and(*[mk_not(x) for x in c.args])
    if c.op == 'lt0':
        # not (p < 0)  ==  -p <= 0
        return mk_le0(mk_neg(c.args[0]))
    if c.op == 'le0':
        return mk_lt0(mk_neg(c.args[0]))
    if c.op == 'phi':
        return mk_phi(c.args[0], mk_not(c.args[1]), mk_not(c.args[2]))
    return t('not', c)


def _mk_and(*cs):
    out = set()
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            out.update(c.args)
        else:
            out.add(c)
    for c in out:
        if mk_not(c) in out:
            return FALSE
    # what is True, False or truthy is not None
    for c in list(out):
        if c.op == 'truth':
            xs = c.args
        elif c.op == 'is' and (c.args[0] in (TRUE, FALSE) or c.args[1] in (TRUE, FALSE)):
            xs = c.args
        else:
            continue
        for x in xs:
            y = t('isnone', x)
            if y in out:
                return FALSE
            out.discard(t('not', y))
    # absorption / unit propagation into disjunctions
    ch = True
    while ch:
        ch = False
        for c in list(out):
            if c.op == 'or':
                if any(x in out for x in c.args):
                    out.discard(c)
                    ch = True
                    break
                keep = [x for x in c.args if mk_not(x) not in out]
                if len(keep) != len(c.args):
                    out.discard(c)
                    n = mk_or(*keep)
                    if n is FALSE:
                        return FALSE
                    if n.op == 'and':
                        out.update(n.args)
                    elif n is not TRUE:
                        out.add(n)
                    ch = True
                    break
    if not out:
        return TRUE
    if len(out) == 1:
        return list(out)[0]
    return t('and', *sorted(out, key=lambda x: x.uid))


def _mk_or(*cs):
    out = set()
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == 'or':
            out.update(c.args)
        else:
            out.add(c)
    for c in out:
        if mk_not(c) in out:
            return TRUE
    for c in list(out):
        if c.op == 'not' and (c.args[0].op == 'truth' or c.args[0].op == 'is' and (
                c.args[0].args[0] in (TRUE, FALSE) or c.args[0].args[1] in (TRUE, FALSE))):
            for x in c.args[0].args:
                y = t('isnone', x)
                if t('not', y) in out:
                    return TRUE
                out.discard(y)
    ch = True
    while ch:
        ch = False
        for c in list(out):
            if c.op == 'and':
                if any(x in out for x in c.args):
                    out.discard(c)
                    ch = True
                    break
                keep = [x for x in c.args if mk_not(x) not in out]
                if len(keep) != len(c.args):
                    out.discard(c)
                    n = mk_and(*keep)
                    if n is TRUE:
                        return TRUE
                    if n.op == 'or':
                        out.update(n.args)
                    elif n is not FALSE:
                        out.add(n)
                    ch = True
                    break
    # (a and r) or (not a and r)  ==  r
    ch = True
    while ch:
        ch = False
        L = [c for c in out if c.op == 'and']
        for i in range(len(L)):
            for j in range(i + 1, len(L)):
                A, B = set(L[i].args), set(L[j].args)
                da, db = A - B, B - A
                if len(da) == 1 and len(db) == 1 and \
                        mk_not(list(da)[0]) is list(db)[0]:
                    out.discard(L[i])
                    out.discard(L[j])
                    r = mk_and(*(A & B))
                    if r.op == 'or':
                        out.update(r.args)
                    elif r is TRUE:
                        return TRUE
                    else:
                        out.add(r)
                    ch = True
                    break
            if ch:
                break
    if not out:
        return FALSE
    if len(out) == 1:
        return list(out)[0]
    return t('or', *sorted(out, key=lambda x: x.uid))


INTCALLS = ('len', 'int', 'sum', 'numpy.argmax', 'numpy.argmin')
INTATTRS = ('shape', 'size', 'K', 'D', 'W', 'H', 'x0', 'y0', 'x1', 'y1', 'ndim')


def is_int_atom(a):
    if a.op in ('k', 'bv'):
        return True
    if a.op == 'call' and a.args[0].op == 'g' and a.args[0].args[0] in INTCALLS:
        return True
    if a.op == 'relu':
        return is_int_term(a.args[0])
    if a.op == 'idx' and a.args[0].op == 'attr' and a.args[0].args[1] == 'shape':
        return True
    if a.op == 'attr' and a.args[1] in ('x0', 'y0', 'x1', 'y1', 'size', 'K'):
        return True
    if a.op == 'sum':
        return is_int_term(a.args[1])
    if a.op == 'at' and a.args[1].op == 'mu':
        return a.args[1].args[2] is ZERO and _mu_int(a.args[1])
    if a.op == 'phi':
        return is_int_term(a.args[1]) and is_int_term(a.args[2])
    if a.op in ('true', 'false'):
        return True
    return False


def _mu_int(mu):
    """a running count: starts at zero, integers added"""
    c, body = mu.args[0], as_poly(mu.args[3])
    if body.get(((c, 1),)) != 1:
        return False
    return is_int_term(from_poly({m: k for m, k in body.items() if m != ((c, 1),)}))


def is_int_term(x):
    for m, c in as_poly(x).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not (isinstance(e, int) and e > 0 and is_int_atom(a)):
                return False
    return True


def _nonneg_atom(a):
    if a.op == 'call' and a.args[0].op == 'g' and a.args[0].args[0] in ('len',):
        return True
    if a.op == 'idx' and a.args[0].op == 'attr' and a.args[0].args[1] == 'shape':
        return True
    if a.op in ('relu', 'k'):
        return True
    return False


def _relu_split(p, mk):
    """r + c*max(0,q) < 0 without the max: both, or one of, the two cases"""
    if p.op not in ('poly', 'relu'):
        return None
    d = as_poly(p)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'relu':
            x = m[0][0]
            if sum(1 for m2 in d for a, e in m2 if a is x) > 1:
                continue
            if sum(1 for m2 in d for a, e in m2 if a.op == 'relu') > 3:
                return None
            r = from_poly({m2: c2 for m2, c2 in d.items() if m2 is not m})
            r2 = mk_add(r, mk_mul(num(c), x.args[0]))
            return (mk_and if c > 0 else mk_or)(mk(r), mk(r2))
    return None


def mk_lt0(p):
    """p < 0"""
    r = _relu_split(p, mk_lt0)
    if r is not None:
        return r
    n = numval(p)
    if n is not None:
        return TRUE if n < 0 else FALSE
    if p.op == 'poly':
        p = _normscale(p)
        if all(c > 0 and all(_nonneg_atom(a) and e > 0 for a, e in m)
               for m, c in p.args):
            return FALSE
        if is_int_term(p):
            # integers: p < 0  <=>  p + 1 <= 0 ; canonical form is le0
            return mk_le0(mk_add(p, num(1)))
    elif is_int_term(p):
        return mk_le0(mk_add(p, num(1)))
    return t('lt0', p)


def mk_le0(p):
    if p.op == 'call' and p.args[0].op == 'g' and p.args[0].args[0] == 'len' and len(p.args[1]) == 1 and \
            p.args[1][0].op == 'list':
        r = nonempty(p.args[1][0])
        if r is not None:
            return mk_not(r)
    r = _relu_split(p, mk_le0)
    if r is not None:
        return r
    n = numval(p)
    if n is not None:
        return TRUE if n <= 0 else FALSE
    if p.op == 'poly':
        p = _normscale(p)
        if all(c < 0 and all(_nonneg_atom(a) and e > 0 for a, e in m)
               for m, c in p.args):
            return TRUE
        if is_int_term(p):
            # x + c <= 0 with only non-negative atoms
            const = dict(p.args).get((), Fraction(0))
            rest = [(m, c) for m, c in p.args if m != ()]
            if const > 0 and all(c > 0 and all(_nonneg_atom(a) for a, e in m)
                                 for m, c in rest):
                return FALSE
    return t('le0', p)


def _normscale(p):
    """divide by positive gcd-like scale so that 2x<0 == x<0"""
    if p.op != 'poly' or not p.args:
        return p
    from math import gcd
    nn, dd = 0, 1
    for m, c in p.args:
        nn = gcd(nn, abs(c.numerator))
        dd = dd * c.denominator // gcd(dd, c.denominator)
    s = Fraction(nn, dd)
    if s == 1 or s == 0:
        return p
    if is_int_term(p) and s < 1:
        return p
    if is_int_term(p) and any(m == () for m, c in p.args):
        return p
    return from_poly({m: c / s for m, c in p.args})


def mk_lt(a, b):
    return mk_lt0(mk_sub(a, b))


def mk_le(a, b):
    return mk_le0(mk_sub(a, b))


def _definite(x):
    """value whose equality with another definite value is decidable"""
    return x.op in ('str', 'none', 'true', 'false') or is_num(x)


NONNONE = ('poly', 'str', 'list', 'tup', 'dict', 'fmt', 'strcat', 'rep',
           'tcat', 'sum', 'slice', 'true', 'false', 'relu', 'upd', 'obj',
           'dom', 'k', 'set', 'lam', 'g', 'alloc')


def mk_isnone(x):
    if x is NONE:
        return TRUE
    if x.op == 'phi':
        return mk_phi(x.args[0], mk_isnone(x.args[1]), mk_isnone(x.args[2]))
    if x.op in NONNONE or (is_bool(x)):
        return FALSE
    if x.op == 'call' and x.args[0].op == 'g':
        nm = x.args[0].args[0]
        last = nm.split('.')[-1]
        if nm in PURE_BUILTINS or nm.startswith('numpy.') or last[:1].isupper():
            return FALSE
    return t('isnone', x)


def mk_eq(a, b):
    if a is b and a.op not in ('call', 'mcall'):
        return TRUE
    if a is NONE:
        return mk_isnone(b)
    if b is NONE:
        return mk_isnone(a)
    if _definite(a) and _definite(b) and a.op == b.op:
        return TRUE if a is b else FALSE
    if a.op == 'phi' and _definite(b):
        return mk_phi(a.args[0], mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b.op == 'phi' and _definite(a):
        return mk_phi(b.args[0], mk_eq(a, b.args[1]), mk_eq(a, b.args[2]))
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'list' and b.op == 'list':
        # xs == []
        if not b.args:
            return mk_not(truth(a))
        if not a.args:
            return mk_not(truth(b))
    if a is TRUE and is_bool(b):
        return b
    if b is TRUE and is_bool(a):
        return a
    if a is FALSE and is_bool(b):
        return mk_not(b)
    if b is FALSE and is_bool(a):
        return mk_not(a)
    # numeric: put on one side
    if a.op == 'poly' or b.op == 'poly' or is_int_term(a) or is_int_term(b):
        d = mk_sub(a, b)
        n = numval(d)
        if n is not None:
            return TRUE if n == 0 else FALSE
        if d.op == 'poly' and d.args[-1][1] < 0:
            d = mk_neg(d)
        # len(x) == 0  <=>  len(x) <= 0
        if len(as_poly(d)) == 1:
            (m, c), = as_poly(d).items()
            if len(m) == 1 and m[0][1] == 1 and _nonneg_atom(m[0][0]) and \
                    m[0][0].op == 'call':
                return mk_le0(m[0][0])
            d = from_poly({m: Fraction(1)})
        return t('eq', d, ZERO)
    if a.uid > b.uid:
        a, b = b, a
    return t('eq', a, b)


def nonempty(x):
    """whether [e for k in D if g] has an element: any(g for k in D)"""
    if len(x.args) != 1 or x.args[0][0] != 'for':
        return None
    b, d, parts = x.args[0][1].args
    if len(parts) != 1 or parts[0][0] != 'cond':
        return None
    _, g, p, q = parts[0]
    if len(p) == 1 and p[0][0] == 'it' and not q:
        pass
    elif len(q) == 1 and q[0][0] == 'it' and not p:
        g = mk_not(g)
    else:
        return None
    k = fresh('k')
    m = {b: k}
    bb, (gg, dd) = bind(k, subst(g, m), subst(d, m))
    return t('any', bb, gg, dd)


def truth(x):
    if is_bool(x):
        return x
    if x is NONE:
        return FALSE
    n = numval(x)
    if n is not None:
        return FALSE if n == 0 else TRUE
    if x.op == 'str':
        return TRUE if x.args[0] else FALSE
    if x.op in ('list', 'tup', 'dict'):
        if not x.args:
            return FALSE
        if x.op == 'list' and nonempty(x) is not None:
            return nonempty(x)
        if x.op == 'tup' or any(p[0] == 'it' for p in x.args if isinstance(p, tuple)):
            return TRUE
        if x.op == 'dict':
            return TRUE
        if x.op == 'list':
            p = x.args
            if len(p) == 1 and p[0][0] == 'for' and len(p[0][1].args[2]) == 1 and \
                    p[0][1].args[2][0][0] == 'it' and p[0][1].args[1].op == 'range' and len(p[0][1].args[1].args) == 1:
                return mk_not(mk_le0(p[0][1].args[1].args[0]))
            return mk_not(mk_le0(t('call', t('g', 'len'), (x,), (), 0)))
    if x.op == 'phi':
        return mk_phi(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if x.op == 'poly' or x.op == 'sum':
        return mk_not(mk_eq(x, ZERO))
    if x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] == 'len':
        return mk_not(mk_le0(x))
    if x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] == 'bool':
        return truth(x.args[1][0])
    if x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] in ('numpy.any', 'numpy.all') and \
            len(x.args[1]) == 1 and not x.args[2] and isinstance(x.args[1][0], T) and x.args[1][0].op == 'not':
        # any(not y) == not all(y)
        other = 'numpy.all' if x.args[0].args[0] == 'numpy.any' else 'numpy.any'
        return mk_not(truth(t('call', t('g', other), (x.args[1][0].args[0],), (), 0)))
    return t('truth', x)


# ---------------------------------------------------------------------- phi

def mk_phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return mk_phi(c.args[0], b, a)
    if c.op == 'phi':
        c = mk_or(mk_and(c.args[0], c.args[1]),
                  mk_and(mk_not(c.args[0]), c.args[2]))
        return mk_phi(c, a, b)
    a = assume(a, c)
    b = assume(b, mk_not(c))
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    # canonical orientation of complementary literals
    nc = flipped(c)
    if nc is not None:
        c, a, b = nc, b, a
    if c.op in ('le0', 'lt0'):
        # min / max
        r = _phi_minmax(c, a, b)
        if r is not None:
            return r
    if c.op == 'and':
        for y in c.args:
            if y.op in ('le0', 'lt0'):
                r = _phi_minmax(y, a, b)
                if r is not None:
                    return mk_phi(mk_and(*[z for z in c.args if z is not y]), r, b)
    if (b is ZERO and negative(a)) or (a is ZERO and negative(b)):
        return mk_neg(mk_phi(c, mk_neg(a), mk_neg(b)))
    # factor common addends
    if _polyish(a) and _polyish(b):
        pa, pb = as_poly(a), as_poly(b)
        common = {m: k for m, k in pa.items() if pb.get(m) == k and m != ()}
        if common and (len(pa) > 1 or len(pb) > 1):
            da = from_poly({m: k for m, k in pa.items() if m not in common})
            db = from_poly({m: k for m, k in pb.items() if m not in common})
            return mk_add(from_poly(common), mk_phi(c, da, db))
    if is_listy(a) and is_listy(b) and a.op == 'list' and b.op == 'list':
        return mk_list(phi_parts(c, a.args, b.args))
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return t('tup', *[mk_phi(c, x, y) for x, y in zip(a.args, b.args)])
    # one store of a conditional value
    if a.op == 'upd' and b.op == 'upd' and a.args[0] is b.args[0] and a.args[1] is b.args[1] and a.args[3] == b.args[3] == '=':
        return t('upd', a.args[0], a.args[1], mk_phi(c, a.args[2], b.args[2]), '=')
    # phi(c, phi(d, x, y), y) = phi(c and d, x, y)
    if a.op == 'phi' and a.args[2] is b:
        return mk_phi(mk_and(c, a.args[0]), a.args[1], b)
    if a.op == 'phi' and a.args[1] is b:
        return mk_phi(mk_and(c, mk_not(a.args[0])), a.args[2], b)
    if b.op == 'phi' and b.args[1] is a:
        return mk_phi(mk_or(c, b.args[0]), a, b.args[2])
    if b.op == 'phi' and b.args[2] is a:
        return mk_phi(mk_or(c, mk_not(b.args[0])), a, b.args[1])
    return t('phi', c, a, b)


def _polyish(x):
    return x.op in ('poly', 'carry', 'sum', 'k', 'bv') or not (
        is_listy(x) or is_stry(x) or is_bool(x) or
        x.op in ('none', 'tup', 'dict', 'list', 'ref', 'slice', 'tcat', 'g'))


def _phi_minmax(c, a, b):
    p = c.args[0]
    d = mk_sub(a, b) if (_polyish(a) and _polyish(b)) else None
    if d is None or numval(d) is not None:
        return None
    # c: p<0 or p<=0.  if p = s*(a-b), s>0: phi(a<b, a, b) = min(a,b)
    q = _normscale(d)
    n = _normscale(p)
    if n is q or (c.op == 'le0' and _off(n, q)):
        return mk_min(a, b)
    if n is mk_neg(q) or (c.op == 'le0' and _off(n, mk_neg(q))):
        return mk_max(a, b)
    return None


def _off(n, q):
    # integer lt canonicalised to le0(p+1)
    return is_int_term(n) and numval(mk_sub(n, q)) == 1


def mk_relu(p):
    """max(0, p)"""
    n = numval(p)
    if n is not None:
        return num(max(n, 0))
    if p.op == 'phi' and False:
        pass
    q = _normscale(p) if p.op == 'poly' else p
    scale = None
    if q is not p:
        # p = s*q
        m = q.args[0][0] if q.op == 'poly' else ((q, 1),)
        s = as_poly(p)[m] / as_poly(q)[m]
        scale = s
    else:
        scale = Fraction(1)
    # relu(q) = q + relu(-q): pick canonical sign
    lead = q.args[-1][1] if q.op == 'poly' else Fraction(1)
    if q.op == 'poly' and q.args[-1][0] == () and len(q.args) > 1:
        lead = q.args[-2][1] if q.args[-2][0] != () else lead
    if q.op == 'poly':
        nz = [c for m, c in q.args if m != ()]
        if nz:
            lead = nz[0]
    if lead < 0:
        nq = mk_neg(q)
        r = mk_add(q, t('relu', nq))
    else:
        r = t('relu', q)
    if scale != 1:
        r = mk_mul(num(scale), r)
    return r


def mk_max(a, b):
    if a is b:
        return a
    # clip normal form: max(lo, min(hi, x)) with constant bound
    return mk_add(a, mk_relu(mk_sub(b, a)))


def mk_min(a, b):
    if a is b:
        return a
    return mk_sub(a, mk_relu(mk_sub(a, b)))


# --------------------------------------------------------------- indexing

FULL = t('slice', NONE, NONE, NONE)


def mk_idx(base, i):
    if base.op == 'tup' or (base.op == 'list' and
                            all(p[0] == 'it' for p in base.args)):
        n = numval(i)
        items = base.args if base.op == 'tup' else tuple(p[1] for p in base.args)
        if n is not None and n.denominator == 1:
            n = int(n)
            if -len(items) <= n < len(items):
                return items[n]
    if base.op == 'list' and base.args and base.args[0][0] == 'it' and \
            numval(i) == 0:
        return base.args[0][1]
    if base.op == 'phi' and (i.op == 'poly') and numval(i) is not None and \
            (base.args[1].op in ('tup', 'list') or base.args[2].op in ('tup', 'list')):
        return mk_phi(base.args[0], mk_idx(base.args[1], i), mk_idx(base.args[2], i))
    if base.op == 'dict' and i.op == 'str':
        hit = None
        ok = True
        for kk, vv in base.args:
            if kk is i:
                hit = vv
            elif kk is None or kk.op != 'str':
                ok = False
        if hit is not None and ok:
            return hit
    if base.op == 'upd' and base.args[1] is i and base.args[3] == '=':
        return base.args[2]
    if base.op == 'upd' and base.args[3] == '=' and i.op == 'str' and \
            base.args[1].op == 'str':
        return mk_idx(base.args[0], i)
    if base.op == 'upd' and base.args[3] == '=':
        n, m = numval(i), numval(base.args[1])
        if n is not None and m is not None and n >= 0 and m >= 0 and n != m:
            return mk_idx(base.args[0], i)
    if base.op == 'coff':
        return mk_idx(base.args[0], mk_add(base.args[1], i)) if i.op != 'slice' else t('idx', base, i)
    if i.op == 'slice' and i.args == (NONE, NONE, NONE) and base.op == 'list':
        return base
    if base.op == 'mcall' and base.args[1] in ('values', 'keys') and not base.args[2] and i.op in ('k', 'bv'):
        return mk_idx(mk_idx(t('mcall', base.args[0], 'items', *base.args[2:]), i), num(1 if base.args[1] == 'values' else 0))
    if i.op == 'idx' and i.args[0].op == 'idx' and numval(i.args[1]) == 0 and i.args[0].args[0].op == 'mcall' and \
            i.args[0].args[0].args[:3] == (base, 'items', ()):
        return mk_idx(i.args[0], num(1))
    if base.op == 'idx' and base.args[1].op == 'slice' and base.args[1].args[2] is NONE and \
            (base.args[1].args[0] is NONE or numval(base.args[1].args[0]) is not None) and numval(i) is not None:
        lo = base.args[1].args[0]
        lo = 0 if lo is NONE else numval(lo)
        n = numval(i)
        hi = base.args[1].args[1]
        if lo >= 0 and n >= 0 and (hi is NONE or numval(hi) is not None and n < numval(hi) - lo):
            return mk_idx(base.args[0], num(lo + n))
    if i.op == 'tup' and len(i.args) > 1 and i.args[0] is FULL and base.op == 'idx' and base.args[1].op == 'slice' and \
            not any(x.op == 'g' or x is NONE for x in i.args):
        return mk_idx(base.args[0], t('tup', base.args[1], *i.args[1:]))
    if i.op == 'slice' and _whole(base, i, 0):
        return base
    if i.op == 'tup' and any(x.op == 'slice' for x in i.args):
        j = tuple(FULL if _whole(base, x, n) else x for n, x in enumerate(i.args)) \
            if not any(x.op == 'g' or x is NONE for x in i.args) else i.args
        if len(j) > 1 and all(x is FULL for x in j):
            return base
        if j != i.args:
            i = t('tup', *j)
    if i.op == 'tup' and len(i.args) > 1 and i.args[-1] is FULL and i.args[0] is not FULL and \
            not any(x.op == 'g' or x is NONE for x in i.args):
        j = list(i.args)
        while j[-1] is FULL:
            j.pop()
        return mk_idx(base, j[0] if len(j) == 1 else t('tup', *j))
    if i.op in ('k', 'bv') and base.op == 'idx' and base.args[1].op == 'slice' and base.args[1].args[2] is NONE and \
            (base.args[1].args[0] is NONE or (numval(base.args[1].args[0]) or -1) > 0):
        # i-th element of a leading (or shifted) part, as a loop over it visits
        lo = base.args[1].args[0]
        return mk_idx(base.args[0], i if lo is NONE else mk_add(lo, i))
    if (i.op in ('k', 'bv') or (numval(i) or 0) >= 0 and numval(i) is not None) and \
            base.op == 'list' and len(base.args) == 1 and base.args[0][0] == 'for':
        # i-th element of a comprehension over range(n)
        b, d, parts = base.args[0][1].args
        if d.op in ('range', 'zipn') and len(parts) == 1 and parts[0][0] == 'it' and i is not b:
            return subst(parts[0][1], {b: i})
    if base.op == 'at' and base.args[0] is i and base.args[1].op == 'mu':
        # earlier iterations stored only at their own index
        c, k, init, body, dom = base.args[1].args
        if _own_index(body, c, k):
            return mk_idx(init, i)
    return t('idx', base, i)


def _whole(base, s, n):
    """s = [:base.shape[n]]"""
    if s.op != 'slice' or s.args[0] is not NONE or s.args[2] is not NONE:
        return False
    h = s.args[1]
    return h.op == 'idx' and numval(h.args[1]) == n and h.args[0].op == 'attr' and \
        h.args[0].args[1] == 'shape' and h.args[0].args[0] is base


def mk_coff(b, o):
    if b.op == 'coff':
        return mk_coff(b.args[0], mk_add(b.args[1], o))
    if numval(o) == 0:
        return b
    return t('coff', b, o)


def _own_index(x, c, k):
    if x is c:
        return True
    if x.op == 'phi':
        return _own_index(x.args[1], c, k) and _own_index(x.args[2], c, k)
    if x.op == 'upd':
        return x.args[1] is k and _own_index(x.args[0], c, k)
    return False


def mk_slice(lo, hi, st):
    if lo is ZERO and (st is NONE):
        lo = NONE
    if st.op == 'poly' and numval(st) == 1:
        st = NONE
        if lo is ZERO:
            lo = NONE
    return t('slice', lo, hi, st)


PURE_BUILTINS = {
    'len', 'int', 'float', 'str', 'repr', 'abs', 'min', 'max', 'sum', 'range',
    'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'sorted', 'reversed',
    'any', 'all', 'isinstance', 'hasattr', 'getattr', 'type', 'map', 'filter',
    'round', 'bool', 'hash', 'id', 'super', 'iter', 'callable', 'slice',
    'divmod', 'pow', 'object', 'complex', 'vars', 'frozenset', 'bytes', 'ord',
    'chr', 'issubclass', 'property', 'open'}


# -------------------------------------------------------------- substitution

def subst(x, m, memo=None):
    """replace terms (keys of m) by their images, renormalising."""
    if memo is None:
        memo = {}
    return _subst(x, m, memo)


def _subst(x, m, memo):
    if x in m:
        return m[x]
    r = memo.get(x)
    if r is not None:
        return r
    kv = memo.get('v')
    if kv is None:
        # variables only: terms without them are left alone
        kv = memo['v'] = frozenset(m) if all(y.op in LEAFVAR for y in m) else False
        cf = None
        for y in m:
            cf = y.free if cf is None else cf & y.free
        memo['cf'] = cf or NOFREE
        memo['min'] = min(y.uid for y in m) if m else 0
    if kv is not False:
        if kv.isdisjoint(x.free):
            return x
    elif x.uid < memo['min'] or (memo['cf'] and not memo['cf'] <= x.free):
        return x
    if not x.args:
        memo[x] = x
        return x
    if x.op in BINDERS1 and memo_h(m, memo) >= x.args[0].h:
        r = _subst_binder(x, m, memo)
        memo[x] = r
        return r
    ch = False
    na = []
    for a in x.args:
        b = _subst_arg(a, m, memo)
        if b is not a:
            ch = True
        na.append(b)
    r = rebuild(x.op, tuple(na)) if ch else x
    memo[x] = r
    return r


BINDERS1 = {'for', 'sum', 'any', 'first', 'loopev', 'lamv', 'until', 'lastv',
            'whiledom', 'cnt', 'mu'}


_bh = {}


def bound_h(x):
    """largest variable bound anywhere inside x"""
    r = _bh.get(x)
    if r is None:
        r = 0
        if x.op in BINDERS1:
            r = x.args[1].h if x.op == 'mu' else x.args[0].h
        if x.h:
            for y in _iter_T(x.args):
                z = bound_h(y)
                if z > r:
                    r = z
        _bh[x] = r
    return r


def memo_h(m, memo):
    r = memo.get('h')
    if r is None:
        r = 0
        for y in m.values():
            if y.h and y.op != 'bv':
                z = bound_h(y)
                if z > r:
                    r = z
        memo['h'] = r
    return r


def _subst_binder(x, m, memo):
    """capture-avoiding: an image may itself bind the variable of x"""
    if not touches(x, m):
        return x
    if x.op == 'mu':
        c, k = fresh('carry'), fresh('k')
        init = _subst_arg(x.args[2], m, memo)
        body, dd = _subst_arg(x.args[3:], {x.args[0]: c, x.args[1]: k}, {})
        body, dd = _subst_arg((body, dd), m, memo)
        bc, (body, dd) = bind(c, body, dd)
        bk, (bc2, init, body, dd) = bind(k, bc, init, body, dd)
        return t('mu', bc2, bk, init, body, dd)
    k = fresh('k')
    rest = _subst_arg(x.args[1:], {x.args[0]: k}, {})
    rest = _subst_arg(rest, m, memo)
    b, rest = bind(k, *rest)
    return rebuild(x.op, (b,) + tuple(rest))


def touches(x, m):
    if all(y.op in LEAFVAR for y in m):
        return not x.free.isdisjoint(m)
    for y in walk(x):
        if y in m:
            return True
    return False


def _subst_arg(a, m, memo):
    c = a.__class__
    if c is T:
        return _subst(a, m, memo)
    if c is tuple:
        out = None
        i = 0
        for y in a:
            c = y.__class__
            if c is T:
                z = _subst(y, m, memo)
            elif c is tuple:
                z = _subst_arg(y, m, memo)
            else:
                z = y
            if z is not y and out is None:
                out = list(a[:i])
            if out is not None:
                out.append(z)
            i += 1
        return a if out is None else tuple(out)
    return a


REBUILD = {}
_SPECIAL = {'poly', 'list', 'str', 'rep', 'tup', 'fmt', 'strcat', 'true', 'false'}


def _uid0(ae):
    return ae[0].uid


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if op == 'poly':
        d = {}
        for m, c in args:
            for a, e in m:
                o = a.op
                if o in _SPECIAL and (o != 'poly' or e < 0 or not a.args) or (o == 'call' and (is_tupley(a) or is_stry(a))):
                    break
            else:
                ps = [a for a, e in m if a.op == 'poly']
                if not ps:
                    if len(m) > 1:
                        q = {}
                        for a, e in m:
                            q[a] = q.get(a, 0) + e
                        m = tuple(sorted(((a, e) for a, e in q.items() if e != 0), key=_uid0))
                    d[m] = d.get(m, 0) + c
                    continue
                x = num(c)
                for a, e in m:
                    x = mk_mul(x, mk_pow(a, num(e)))
                if x.op == 'poly' or x.op not in _SPECIAL:
                    for m1, c1 in as_poly(x).items():
                        d[m1] = d.get(m1, 0) + c1
                    continue
            break
        else:
            return from_poly(d)
        r = ZERO
        for m, c in args:
            x = num(c)
            for a, e in m:
                x = mk_mul(x, mk_pow(a, num(e)))
            r = mk_add(r, x)
        return r
    return t(op, *args)


REBUILD['and'] = mk_and
REBUILD['or'] = mk_or
REBUILD['not'] = mk_not
REBUILD['lt0'] = mk_lt0
REBUILD['le0'] = mk_le0
REBUILD['eq'] = mk_eq
REBUILD['isnone'] = mk_isnone
REBUILD['truth'] = truth
REBUILD['phi'] = mk_phi
REBUILD['list'] = lambda *p: mk_list(p)
REBUILD['idx'] = mk_idx
REBUILD['coff'] = mk_coff
REBUILD['slice'] = mk_slice
REBUILD['relu'] = mk_relu
REBUILD['strcat'] = lambda *p: _strcat_all(p)
REBUILD['pow'] = mk_pow
REBUILD['tcat'] = mk_add
REBUILD['rep'] = lambda a, b: mk_mul(a, b)


def _strcat_all(p):
    r = p[0]
    for x in p[1:]:
        r = mk_strcat(r, x)
    return r


# ----------------------------------------------------------------- assume

def literals(c):
    """facts implied by c being true: dict term->TRUE/FALSE"""
    m = {}
    if c.op == 'and':
        for x in c.args:
            m.update(literals(x))
        return m
    m[c] = TRUE
    n = mk_not(c)
    m[n] = FALSE
    if c.op == 'not':
        c2 = c.args[0]
        if c2.op == 'truth':
            pass
    if c.op == 'isnone':
        m[t('truth', c.args[0])] = FALSE
        m[c.args[0]] = NONE
    if c.op == 'truth':
        m[t('isnone', c.args[0])] = FALSE
    if c.op == 'is':
        for a, b in (c.args, c.args[::-1]):
            if a is TRUE or a is FALSE:
                m[t('isnone', b)] = FALSE
    if c.op == 'eq' and c.args[1] is not ZERO:
        a, b = c.args
        if _definite(b) and not _definite(a):
            m[a] = b
        elif _definite(a) and not _definite(b):
            m[b] = a
    if c.op == 'eq' and c.args[1] is ZERO:
        # d == 0: if d is a plain atom (or atom minus number), pin the atom
        d = as_poly(c.args[0])
        nz = [(mm, k) for mm, k in d.items() if mm != ()]
        if len(nz) == 1 and len(nz[0][0]) == 1 and nz[0][0][0][1] == 1:
            at = nz[0][0][0][0]
            if at.op not in ('poly',):
                m[at] = num(-d.get((), Fraction(0)) / nz[0][1])
        m[t('lt0', c.args[0])] = FALSE
    if c.op in ('lt0', 'le0'):
        p = c.args[0]
        m[t('relu', p)] = ZERO
        m[t('relu', mk_neg(p))] = mk_neg(p)
        if c.op == 'le0' and is_int_term(p):
            q = mk_sub(p, num(1))
            m[t('relu', q)] = ZERO
            m[t('relu', mk_neg(q))] = mk_neg(q)
    if c.op == 'lt0':
        p = c.args[0]
        m[mk_le0(p)] = TRUE
        m[t('lt0', mk_neg(p))] = FALSE
        m[mk_eq(p, ZERO)] = FALSE
    if c.op == 'in':
        pass
    for k in list(m):
        if k in (TRUE, FALSE, NONE, ZERO):
            del m[k]
    return m


_assume_memo = {}


def assume(x, c):
    """simplify x under the assumption that boolean c holds"""
    if c is TRUE or c is FALSE:
        return x
    k = (x, c)
    r = _assume_memo.get(k)
    if r is None:
        m = literals(c)
        if c.op == 'or':
            m = {c: TRUE, mk_not(c): FALSE}
        r = subst(x, m)
        _assume_memo[k] = r
    return r


# ----------------------------------------------------------------- traversal

def walk(x, seen=None):
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        for z in _iter_T(y.args):
            st.append(z)


def contains(x, pred):
    for y in walk(x):
        if pred(y):
            return True
    return False


def occurs(x, what):
    if what.op in LEAFVAR:
        return what in x.free
    for y in walk(x):
        if y is what:
            return True
    return False


# ----------------------------------------------------------------- binders

def bind(var, *terms):
    """close `var` (a fresh term) over the given structure: returns (bv, new)"""
    h = 0
    for x in _iter_T(terms):
        if x.h > h:
            h = x.h
    b = t('bv', h + 1)
    memo = {}
    return b, _subst_arg(tuple(terms), {var: b}, memo)


# ----------------------------------------------------------------- display

def show(x, depth=12):
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = x.op, x.args
    if o == 'poly':
        if not a:
            return '0'
        s = []
        for m, c in a:
            f = []
            for at, e in m:
                q = show(at, d)
                if at.op == 'poly':
                    q = '(' + q + ')'
                f.append(q if e == 1 else '%s**%s' % (q, e))
            body = '*'.join(f)
            if not body:
                s.append(str(c))
            elif c == 1:
                s.append(body)
            elif c == -1:
                s.append('-' + body)
            else:
                s.append('%s*%s' % (c, body))
        return ' + '.join(s).replace('+ -', '- ')
    if o == 'str':
        return repr(a[0])
    if o in ('g', 'p'):
        return a[0]
    if o == 'none':
        return 'None'
    if o == 'true':
        return 'True'
    if o == 'false':
        return 'False'
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'slice':
        return ':'.join('' if y is NONE else show(y, d) for y in a[:2]) + \
            ('' if a[2] is NONE else ':' + show(a[2], d))
    if o == 'call':
        return '%s(%s)' % (show(a[0], d), _showargs(a[1], a[2], d))
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], _showargs(a[2], a[3], d))
    if o == 'list':
        return '[' + ', '.join(_showpart(p, d) for p in a) + ']'
    if o == 'tup':
        return '(' + ', '.join(show(y, d) for y in a) + ',)'
    if o == 'phi':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == 'lt0':
        return '(%s < 0)' % show(a[0], d)
    if o == 'le0':
        return '(%s <= 0)' % show(a[0], d)
    if o == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if o == 'isnone':
        return '(%s is None)' % show(a[0], d)
    if o == 'not':
        return '(not %s)' % show(a[0], d)
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(show(y, d) for y in a) + ')'
    if o == 'truth':
        return 'bool(%s)' % show(a[0], d)
    if o == 'relu':
        return 'max(0, %s)' % show(a[0], d)
    if o == 'bv':
        return '$%d' % a[0]
    if o == 'k':
        return 'k%d' % a[0]
    if o == 'rep':
        return '%s*%s' % (show(a[0], d), show(a[1], d))

    def sh(y):
        if isinstance(y, T):
            return show(y, d)
        if isinstance(y, tuple):
            return '(' + ', '.join(sh(z) for z in y) + ')'
        return str(y)
    return '%s<%s>' % (o, ', '.join(sh(y) for y in a))


def _showargs(args, kw, d):
    return ', '.join([show(y, d) for y in args] +
                     ['%s=%s' % (k, show(v, d)) for k, v in kw])


def _showpart(p, d):
    if p[0] == 'it':
        return show(p[1], d)
    if p[0] == 'splat':
        return '*' + show(p[1], d)
    if p[0] == 'cond':
        return 'if %s: [%s] else [%s]' % (show(p[1], d), ', '.join(
            _showpart(q, d) for q in p[2]), ', '.join(_showpart(q, d) for q in p[3]))
    if p[0] == 'for':
        return show(p[1], d)
    return repr(p)
