import time
"""Equality of value graphs by congruence, bound-variable matching and Shannon
expansion on condition atoms; differences are reported as (conditions,
expected, found) triples."""
from terms import *
from terms import _subst_arg, _iter_T
import value as V

BIND1 = {'for', 'sum', 'any', 'first', 'loopev', 'lamv', 'until', 'lastv',
         'whiledom', 'cnt'}

_fb = {}


def freebv(x):
    r = _fb.get(x)
    if r is None:
        if x.op == 'bv':
            r = frozenset([x])
        else:
            s = set()
            for y in _iter_T(x.args):
                s |= freebv(y)
            if x.op in BIND1:
                s.discard(x.args[0])
            elif x.op == 'mu':
                s.discard(x.args[0])
                s.discard(x.args[1])
            r = frozenset(s)
        _fb[x] = r
    return r


def opens(x):
    """open the outermost binder(s) of x with shared canonical variables"""
    raise NotImplementedError


_ca = {}


def cond_atoms(x, out=None, seen=None):
    """condition literals with no free bound variable, in order of appearance"""
    if out is None:
        r = _ca.get(x)
        if r is None:
            r = _ca[x] = tuple(cond_atoms(x, [], set()))
        return list(r)
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'phi':
            _lits(y.args[0], out)
        elif y.op == 'list':
            for p in y.args:
                _part_conds(p, out)
        elif y.op == 'boolval':
            _lits(y.args[0], out)
        elif y.op in ('and', 'or', 'not') and not freebv(y):
            _lits(y, out)
        for z in _iter_T(y.args):
            st.append(z)
    return [c for c in out if not freebv(c)]


def _part_conds(p, out):
    if p[0] == 'cond':
        _lits(p[1], out)
        for q in p[2] + p[3]:
            _part_conds(q, out)


def _lits(c, out):
    if c.op in ('and', 'or'):
        for x in c.args:
            _lits(x, out)
    elif c.op == 'not':
        _lits(c.args[0], out)
    elif c.op == 'phi':
        for x in c.args:
            _lits(x, out)
    elif c not in (TRUE, FALSE):
        if c not in out:
            out.append(c)


class Facts(object):
    """assumed literals along one branch of the expansion"""

    def __init__(self, lits=()):
        self.lits = tuple(lits)

    dead = False

    def add(self, c):
        """assume c as well; .dead when that contradicts what is assumed"""
        out = Facts(self.lits + (c,))
        ch = []
        for n, f in enumerate(self.lits):
            if cond_atoms(f):
                g = assume(f, c)
                if g is FALSE:
                    out.dead = True
                    return out
                if g is not f:
                    ch.append((n, g))
        c2 = c
        if cond_atoms(c):
            for f in self.lits:
                c2 = assume(c2, f)
            if c2 is FALSE:
                out.dead = True
                return out
        if ch or c2 is not c:
            L = list(out.lits)
            for n, g in ch:
                L[n] = g
            L[-1] = c2
            for n in [n for n, g in ch] + ([len(L) - 1] if c2 is not c else []):
                if L[n] is not TRUE and Facts(L[:n] + L[n + 1:]).implied(L[n]) is FALSE:
                    out.dead = True
                    return out
            out.lits = tuple(L)
        if out.noint():
            out.dead = True
        return out

    def same(self, a, b):
        """a = b by an assumed equality"""
        for f in self.lits:
            if f.op == 'eq' and f.args[1] is ZERO:
                d = mk_sub(a, b)
                if d is f.args[0] or mk_sub(b, a) is f.args[0]:
                    return True
            elif f.op == 'eq' and (f.args == (a, b) or f.args == (b, a)):
                return True
        return False

    def noint(self):
        """no integer satisfies what is assumed of a quantity compared with
        integer constants only (and with at least one of them by ==)"""
        D = {}
        for f in self.lits:
            g, neg = (f.args[0], True) if f.op == 'not' else (f, False)
            if g.op not in ('eq', 'lt0', 'le0') or g.op == 'eq' and g.args[1] is not ZERO:
                continue
            pp = as_poly(g.args[0])
            c0 = pp.get((), 0)
            rest = [(m, v) for m, v in pp.items() if m != ()]
            if len(rest) != 1 or rest[0][1] not in (1, -1) or len(rest[0][0]) != 1 or rest[0][0][0][1] != 1 or \
                    getattr(c0, 'denominator', 1) != 1:
                continue
            x, s = rest[0][0][0][0], rest[0][1]
            D.setdefault(x, []).append((g.op, neg, int(s), int(c0)))
        for x, L in D.items():
            if len(L) < 3:
                continue
            lo, hi, ne, eqs = None, None, set(), 0
            if x.op == 'op' and x.args[0] == 'mod' and (numval(x.args[2]) or 0) > 0:
                lo, hi = 0, numval(x.args[2]) - 1
            for op, neg, s, c in L:
                if op == 'eq':
                    eqs += 1
                    if neg:
                        ne.add(-s * c)
                    continue
                # s*x + c < 0  (<= 0)
                strict = (op == 'lt0') != neg
                if neg:
                    s, c = -s, -c
                b = -c if s > 0 else c
                if s > 0:
                    h = b - 1 if strict else b
                    hi = h if hi is None else min(hi, h)
                else:
                    l = b + 1 if strict else b
                    lo = l if lo is None else max(lo, l)
            if eqs and lo is not None and hi is not None and hi - lo < 40 and \
                    all(v in ne for v in range(int(lo), int(hi) + 1)):
                return True
        return False

    def implied(self, c):
        """TRUE/FALSE if decided by the assumed literals, else None"""
        nc = mk_not(c)
        for f in self.lits:
            if f is c:
                return TRUE
            if f is nc:
                return FALSE
        for f in self.lits:
            r = _lin(f, c)
            if r is not None:
                return r
            if f.op == 'eq' and c.op == 'eq' and f is not c:
                if f.args[1] is ZERO and c.args[1] is ZERO:
                    for sgn in (1, -1):
                        d = numval(mk_sub(f.args[0], mk_mul(num(sgn), c.args[0])))
                        if d is not None and d != 0:
                            return FALSE
        return None


def _lin(f, c):
    if f.op not in ('lt0', 'le0') or c.op not in ('lt0', 'le0', 'eq'):
        if f.op == 'eq' and f.args[1] is ZERO and c.op in ('lt0', 'le0'):
            for sgn in (1, -1):
                d = numval(mk_sub(c.args[0], mk_mul(num(sgn), f.args[0])))
                if d is not None:
                    ok = d < 0 if c.op == 'lt0' else d <= 0
                    return TRUE if ok else FALSE
        return None
    p = f.args[0]
    strict = f.op == 'lt0'
    if c.op == 'eq':
        if c.args[1] is not ZERO:
            return None
        for sgn in (1, -1):
            d = numval(mk_sub(mk_mul(num(sgn), c.args[0]), p))
            # sgn*q = p + d ; p<(=)0 ; q==0 => p = -d
            if d is not None and (d < 0 or (d == 0 and strict)):
                return FALSE
        return None
    q = c.args[0]
    d = numval(mk_sub(q, p))
    if d is not None:
        # q = p + d
        if d < 0 or (d == 0 and (c.op == 'le0' or strict)):
            return TRUE
    s = numval(mk_add(q, p))
    if s is not None:
        # q = s - p ; p<=0 -> q >= s
        if s > 0:
            return FALSE
        if s == 0 and (strict or c.op == 'lt0'):
            return FALSE
    return None


def rat_equal(pa, pb, limit=600):
    """equality of two rational functions, by clearing denominators"""
    d = dict(pa)
    for m, c in pb.items():
        d[m] = d.get(m, 0) - c
    for rnd in range(5):
        d = {m: c for m, c in d.items() if c != 0}
        if not d:
            return True
        den = {}
        for m in d:
            for x, e in m:
                if e < 0 and isinstance(e, int):
                    den[x] = min(den.get(x, 0), e)
        big = [x for x in den if x.op == 'poly']
        if not big and not any(x.op == 'poly' for m in d for x, e in m):
            return False
        if len(big) > 6 or len(d) > 40:
            return False
        out = {}
        for m, c in d.items():
            me = dict(m)
            for x, e in den.items():
                me[x] = me.get(x, 0) - e
            cur = {(): c}
            for x, e in me.items():
                if e == 0:
                    continue
                if x.op == 'poly' and isinstance(e, int) and e > 0:
                    fs = [as_poly(x)] * e
                else:
                    fs = [{((x, e),): 1}]
                for f in fs:
                    nxt = {}
                    for m1, c1 in cur.items():
                        for m2, c2 in f.items():
                            mm = mono_mul(m1, m2)
                            nxt[mm] = nxt.get(mm, 0) + c1 * c2
                    cur = nxt
                    if len(cur) > limit:
                        return False
            for mm, cc in cur.items():
                out[mm] = out.get(mm, 0) + cc
        d = out
    return False


def unstar(A, n):
    """f(*x) read as a call with n arguments"""
    s = [i for i, x in enumerate(A) if isinstance(x, T) and x.op == 'star']
    if len(s) != 1 or n < len(A):
        return None
    i = s[0]
    m = n - len(A) + 1
    return A[:i] + tuple(mk_idx(A[i].args[0], num(j)) for j in range(m)) + A[i + 1:]


def lendom(x):
    if x.op == 'list' and len(x.args) == 1 and x.args[0][0] == 'for':
        b, d, parts = x.args[0][1].args
        if len(parts) == 1 and parts[0][0] == 'it':
            return d
    return t('range', t('call', G('len'), (x,), (), 0))


def emptied(x, lit):
    """x where no element of D satisfies g (lit = not any(g for k in D)): loops
    over D that act only on such elements do nothing"""
    if lit.op != 'not' or lit.args[0].op != 'any':
        return x
    b, g, d = lit.args[0].args
    k = fresh('k')
    gk = subst(g, {b: k})
    m = {}
    for y in walk(x):
        if y.op == 'for' and y.args[1] is d and len(y.args[2]) == 1 and y.args[2][0][0] == 'cond':
            _, c, p, q = _subst_arg(y.args[2][0], {y.args[0]: k}, {})
            if not q and _entails(c, gk) or not p and _entails(mk_not(c), gk):
                m[y] = None
        elif y.op == 'mu' and y.args[4] is d:
            body = subst(y.args[3], {y.args[1]: k})
            if assume(body, mk_not(gk)) is y.args[0]:
                m[y] = y.args[2]
    if not m:
        return x
    return _prune(x, m, {})


def _entails(c, g):
    return c is g or c.op == 'and' and (g in c.args or g.op == 'and' and set(g.args) <= set(c.args))


def _prune(x, m, memo):
    def parts(ps):
        out = []
        for p in ps:
            if isinstance(p, tuple) and p and p[0] == 'for' and p[1] in m:
                continue
            if isinstance(p, tuple) and p and p[0] == 'cond':
                p = ('cond', p[1], parts(p[2]), parts(p[3]))
            out.append(p)
        return tuple(out)
    sm = {}
    for y in walk(x):
        if y in m and m[y] is not None:
            sm[y] = m[y]
        elif y.op == 'list':
            ps = parts(y.args)
            if ps != y.args:
                sm[y] = V.mk_list(ps)
        elif y.op == 'for':
            ps = parts(y.args[2])
            if ps != y.args[2]:
                sm[y] = t('for', y.args[0], y.args[1], ps) if ps else t('for', y.args[0], y.args[1], ())
        elif y.op == 'fin' and y.args[0] in m and m[y.args[0]] is not None:
            sm[y] = m[y.args[0]]
    return subst(x, sm) if sm else x


class Differ(object):
    def __init__(self, limit=4000, maxsplit=14):
        self.limit = limit
        self.maxsplit = maxsplit
        self.n = 0
        self.memo = {}
        self.overflow = False
        self.busy = {}
        self.until = None

    def diff(self, a, b, facts=None, depth=0):
        """list of (facts, a, b) differences; [] if equal"""
        if a is b:
            return []
        facts = facts or Facts()
        self.n += 1
        deadline_tick()
        if self.until is not None and self.n & 15 == 0 and time.time() > self.until:
            self.n = self.limit + 1
        if self.n > self.limit:
            self.overflow = True
            return [(facts.lits, V.t('toobig'), b)]
        k = (a, b, facts.lits)
        if k in self.memo:
            return self.memo[k]
        r = self._diff(a, b, facts, depth)
        self.memo[k] = r
        return r

    def _diff(self, a, b, facts, depth):
        a0, b0 = a, b
        # decide conditions already implied
        ca = cond_atoms(a)
        cb = cond_atoms(b)
        if is_bool(a) or is_bool(b):
            _lits(a, ca) if is_bool(a) else None
            _lits(b, cb) if is_bool(b) else None
            ca = [c for c in ca if not freebv(c)]
            cb = [c for c in cb if not freebv(c)]
        ch = False
        for c in list(dict.fromkeys(ca + cb)):
            r = facts.implied(c)
            if r is not None:
                lit = c if r is TRUE else mk_not(c)
                a = assume(a, lit)
                b = assume(b, lit)
                ch = True
        if a is b:
            return []
        if (a.op == 'boolval') != (b.op == 'boolval'):
            # the value of 'x and y' itself
            if a.op == 'boolval':
                return self.diff(a.args[1], b, facts, depth)
            return self.diff(a, b.args[1], facts, depth)
        if not is_bool(a) and not is_bool(b) and facts.same(a, b):
            return []
        if ch and (a is not a0 or b is not b0):
            return self.diff(a, b, facts, depth)
        # conditions on loops that are the same in another form
        oa = [c for c in ca if c not in cb and bound_h(c)]
        ob = [c for c in cb if c not in ca and bound_h(c)]
        if oa and ob:
            m = {}
            for y in ob:
                for x in oa:
                    if x.op == y.op:
                        if (x, y) not in self.busy:
                            self.busy[(x, y)] = False
                            self.busy[(x, y)] = self.diff(x, y, None, depth + 1) == []
                        if self.busy[(x, y)]:
                            m[y] = x
                            break
            if m:
                return self.diff(a, subst(b, m), facts, depth)
        # a literal against itself with different polarity etc.
        both = [c for c in ca if c in cb]
        # also complementary literals
        cand = both + [c for c in ca if c not in both] + [c for c in cb if c not in both]
        if len(facts.lits) < self.maxsplit:
            for c in cand:
                if c is a and c is b:
                    continue
                if (a is c or b is c or mk_not(c) is a or mk_not(c) is b) and len(cand) == 1 and \
                        is_bool(a) and is_bool(b) and not _compound(a) and not _compound(b):
                    # two different literals: structural comparison decides
                    break
                pa, pb = assume(a, c), assume(b, c)
                nc = mk_not(c)
                na, nb = assume(a, nc), assume(b, nc)
                if c.op == 'any':
                    na, nb = emptied(na, nc), emptied(nb, nc)
                if pa is a and na is a and pb is b and nb is b:
                    continue
                f1, f2 = facts.add(c), facts.add(nc)
                d1 = [] if f1.dead else self.diff(pa, pb, f1, depth + 1)
                d2 = [] if f2.dead else self.diff(na, nb, f2, depth + 1)
                # before reporting, see whether the terms agree structurally
                if d1 or d2:
                    s = self.structural(a, b, facts, depth)
                    if s == []:
                        return []
                    return d1 + d2
                return []
        s = self.structural(a, b, facts, depth)
        if s and len(facts.lits) >= self.maxsplit and cand:
            # the case split was cut off: nothing can be concluded
            self.overflow = True
            return [(facts.lits, t('toobig'), b)]
        return s

    def structural(self, a, b, facts, depth):
        leaf = [(facts.lits, a, b)]
        if a.op != b.op:
            # a poly against an atom: look at the difference
            if 'poly' in (a.op, b.op):
                return self.polydiff(a, b, facts, depth, leaf)
            if b.op == 'call' and b.args[0] is G('len') and len(b.args[1]) == 1 and a.op == 'idx' and \
                    a.args[1] is ZERO and a.args[0].op == 'attr' and a.args[0].args[1] == 'shape':
                # number of rows of an array
                if self.diff(a.args[0].args[0], b.args[1][0], facts, depth + 1) == []:
                    return []
            if a.op == 'upd' or b.op == 'upd':
                return leaf
            return leaf
        if a.op == 'poly':
            return self.polydiff(a, b, facts, depth, leaf)
        if a.op == 'call' and a.args[0] is G('len') and b.args[0] is G('len') and len(a.args[1]) == len(b.args[1]) == 1:
            da, db = lendom(a.args[1][0]), lendom(b.args[1][0])
            if (da.op == 'zipn' or db.op == 'zipn') and self.domdiff(da, db, facts, depth) == []:
                return []
        if a.op in BIND1:
            k = fresh('k')
            sa = tuple(_subst_arg(x, {a.args[0]: k}, {}) for x in a.args[1:])
            sb = tuple(_subst_arg(x, {b.args[0]: k}, {}) for x in b.args[1:])
            if a.op == 'loopev':
                d = self.domdiff(sa[0], sb[0], facts, depth)
                la = V.mk_list([('cond', g, (('it', e),), ()) for g, e in sa[1]])
                lb = V.mk_list([('cond', g, (('it', e),), ()) for g, e in sb[1]])
                return d + self.diff(la, lb, facts, depth + 1)
            if a.op == 'for':
                d = self.domdiff(sa[0], sb[0], facts, depth)
                return d + self.diff(mk_list(sa[1]), mk_list(sb[1]), facts, depth + 1)
            if a.op == 'first':
                # the value counts only where its condition holds
                d = self.diff(sa[0], sb[0], facts, depth + 1)
                if not d:
                    d = self.diff(sa[1], sb[1], facts, depth + 1)
                    if d:
                        d = self.diff(mk_phi(sa[0], sa[1], V.UNDEF), mk_phi(sb[0], sb[1], V.UNDEF), facts, depth + 1)
                return d + self.domdiff(sa[2], sb[2], facts, depth)
            return self.args_diff(sa, sb, facts, depth, leaf, dom_last=a.op in (
                'sum', 'any', 'first', 'until', 'lastv', 'cnt'))
        if a.op == 'mu':
            k, c = fresh('k'), fresh('carry')
            ma = {a.args[0]: c, a.args[1]: k}
            mb = {b.args[0]: c, b.args[1]: k}
            sa = (a.args[2],) + tuple(_subst_arg(x, ma, {}) for x in a.args[3:])
            sb = (b.args[2],) + tuple(_subst_arg(x, mb, {}) for x in b.args[3:])
            da, db = sa[2], sb[2]
            if da.op == 'until' and db.op == 'until':
                # the update counts only in iterations that stay in the loop
                xa = _subst_arg(da.args[1], {da.args[0]: k}, {})
                xb = _subst_arg(db.args[1], {db.args[0]: k}, {})
                d = self.diff(sa[0], sb[0], facts, depth + 1) + self.domdiff(da.args[2], db.args[2], facts, depth) + \
                    self.diff(xa, xb, facts, depth + 1)
                d1 = self.diff(sa[1], sb[1], facts, depth + 1)
                if d1 and not d:
                    d1 = self.diff(mk_phi(xa, V.UNDEF, sa[1]), mk_phi(xb, V.UNDEF, sb[1]), facts, depth + 1)
                return d + d1
            return self.args_diff(sa, sb, facts, depth, leaf, dom_last=True)
        if a.op == 'list':
            return self.list_diff(a, b, facts, depth, leaf)
        if a.op in ('and', 'or', 'not', 'lt0', 'le0', 'eq', 'phi', 'str', 'g', 'p', 'bv', 'k', 'carry'):
            if a.op == 'phi':
                return leaf
            if a.op in ('not', 'lt0', 'le0'):
                d = self.diff(a.args[0], b.args[0], facts, depth + 1)
                return [] if d == [] else leaf
            if a.op == 'eq':
                if self.diff(a.args[0], b.args[0], facts, depth + 1) == [] and \
                        self.diff(a.args[1], b.args[1], facts, depth + 1) == []:
                    return []
            return leaf
        if a.op in ('attr', 'call', 'mcall', 'scall', 'idx', 'slice', 'tup', 'dict',
                    'upd', 'op', 'fmt', 'strcat', 'rep', 'obj', 'inplace', 'after', 'holding', 'at',
                    'fin', 'isinst', 'hasattr', 'truth', 'isnone', 'pow', 'relu',
                    'in', 'is', 'set', 'star', 'range', 'range3', 'zipn', 'tcat',
                    'boolval', 'with', 'store', 'loc', 'enter', 'rank', 'ncount', 'exc'):
            return self.args_diff(a.args, b.args, facts, depth, leaf)
        return leaf

    def domdiff(self, a, b, facts, depth):
        """iteration spaces: zip truncation against a component counts as equal"""
        if a is b:
            return []
        sa = set(a.args[0]) if a.op == 'zipn' else {a}
        sb = set(b.args[0]) if b.op == 'zipn' else {b}
        if sa <= sb or sb <= sa:
            return []
        for x in sa:
            for y in sb:
                if x is not y and (a.op == 'zipn' or b.op == 'zipn') and self.diff(x, y, facts, depth + 1) == []:
                    return []
        # x[:n] visited where the reference indexes x with every i < n (and
        # would fail if x were shorter)
        for x in sa:
            if x.op == 'range':
                for y in sb:
                    if y.op == 'range' and y not in sa:
                        n = V.lead_len(y.args[0])
                        if n is not None and (n is x.args[0] or self.diff(x.args[0], n, facts, depth + 1) == []):
                            return []
        return self.diff(a, b, facts, depth + 1)

    def args_diff(self, A, B, facts, depth, leaf, dom_last=False):
        if len(A) != len(B):
            A2, B2 = unstar(A, len(B)), unstar(B, len(A))
            if A2 is None and B2 is None:
                return leaf
            A, B = (A2, B) if A2 is not None else (A, B2)
        out = []
        n = len(A)
        for i, (x, y) in enumerate(zip(A, B)):
            if dom_last and i == n - 1:
                out += self.domdiff(x, y, facts, depth)
                continue
            if x is y or x == y:
                continue
            if isinstance(x, T) and isinstance(y, T):
                out += self.diff(x, y, facts, depth + 1)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                d = self.args_diff(x, y, facts, depth, leaf)
                out += d
            else:
                return leaf
        return out

    def polydiff(self, a, b, facts, depth, leaf):
        pa, pb = as_poly(a), as_poly(b)
        ra = {m: c for m, c in pa.items() if pb.get(m) != c}
        rb = {m: c for m, c in pb.items() if pa.get(m) != c}
        if not ra and not rb:
            return []
        if rat_equal(ra, rb):
            return []
        # pair leftover monomials with the same coefficient and shape
        used = set()
        res = []
        for m, c in ra.items():
            best = None
            for m2, c2 in rb.items():
                if m2 in used or c2 != c or len(m) != len(m2):
                    continue
                da = [(x, e) for x, e in m if (x, e) not in m2]
                db = [(x, e) for x, e in m2 if (x, e) not in m]
                if len(da) != 1 or len(db) != 1 or da[0][1] != db[0][1]:
                    # try equality atom by atom
                    if len(da) != len(db) or len(da) > 3:
                        continue
                    ok = True
                    left = list(db)
                    for x, e in da:
                        hit = None
                        for y, e2 in left:
                            if e == e2 and self.diff(x, y, facts, depth + 1) == []:
                                hit = (y, e2)
                                break
                        if hit is None:
                            ok = False
                            break
                        left.remove(hit)
                    if ok:
                        best = (m2, [])
                        break
                    continue
                d = self.diff(da[0][0], db[0][0], facts, depth + 1)
                if d == []:
                    best = (m2, [])
                    break
                if best is None and da[0][0].op == db[0][0].op:
                    best = (m2, d)
            if best is None:
                return leaf
            used.add(best[0])
            res += best[1]
        if len(used) != len(rb):
            return leaf
        return res

    def list_diff(self, a, b, facts, depth, leaf):
        A, B = list(a.args), list(b.args)
        while A and B and A[0] == B[0]:
            A.pop(0)
            B.pop(0)
        while A and B and A[-1] == B[-1]:
            A.pop()
            B.pop()
        if len(A) == len(B):
            out = []
            for p, q in zip(A, B):
                d = self.part_diff(p, q, facts, depth)
                if d is None:
                    return [(facts.lits, t('list', *A), t('list', *B))]
                out += d
            return out
        # alignment of lists with different lengths: drop equal parts
        i = j = 0
        la, lb = [], []
        out = []
        n, m = len(A), len(B)
        # LCS under 'part equal'
        eqm = {}

        def same(x, y):
            kk = (x, y)
            if kk not in eqm:
                d = self.part_diff(A[x], B[y], facts, depth) if A[x] != B[y] else []
                eqm[kk] = d == []
            return eqm[kk]
        if n * m <= 200:
            L = [[0] * (m + 1) for _ in range(n + 1)]
            for x in range(n - 1, -1, -1):
                for y in range(m - 1, -1, -1):
                    L[x][y] = L[x + 1][y + 1] + 1 if same(x, y) else max(L[x + 1][y], L[x][y + 1])
            x = y = 0
            while x < n and y < m:
                if same(x, y):
                    x += 1
                    y += 1
                elif L[x + 1][y] >= L[x][y + 1]:
                    la.append(A[x])
                    x += 1
                else:
                    lb.append(B[y])
                    y += 1
            la += A[x:]
            lb += B[y:]
            # an always-empty conditional part is nothing
            return [(facts.lits, t('list', *la), t('list', *lb))]
        return [(facts.lits, t('list', *A), t('list', *B))]

    def part_diff(self, p, q, facts, depth):
        if p == q:
            return []
        if p[0] != q[0]:
            return None
        if p[0] in ('it', 'splat', 'for'):
            return self.diff(p[1], q[1], facts, depth + 1)
        if p[0] == 'cond':
            d = self.diff(p[1], q[1], facts, depth + 1)
            if d:
                return d
            return self.diff(mk_list(p[2]), mk_list(q[2]), facts, depth + 1) + \
                self.diff(mk_list(p[3]), mk_list(q[3]), facts, depth + 1)
        return None


class Sites(object):
    """Where two large terms differ, by walking down equal operators and
    comparing the small subterms on their own.  Used when the case split over
    the whole terms is cut off.  [] : equal; None : cannot tell."""

    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.n = 0
        self.sz = {}
        self.loc = {}

    def size(self, x):
        r = self.sz.get(x)
        if r is None:
            n = 0
            seen = set()
            st = [x]
            while st and n < 500:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                n += 1
                st.extend(_iter_T(y.args))
            r = self.sz[x] = n
        return r

    def run(self, a, b):
        r = self.go(a, b)
        if None in r:
            return None
        return [((), x, y) for x, y in sorted(r, key=lambda q: (q[0].uid, q[1].uid))]

    def local(self, a, b):
        if self.size(a) + self.size(b) > 400:
            return None
        k = (a, b)
        if k not in self.loc:
            D = Differ(limit=600, maxsplit=10)
            D.until = time.time() + 1.
            d = D.diff(a, b)
            self.loc[k] = True if d == [] else None if D.overflow else False
        return self.loc[k]

    def go(self, a, b):
        if a is b:
            return frozenset()
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        self.n += 1
        deadline_tick()
        if self.n > 6000:
            return frozenset([None])
        self.memo[k] = frozenset([None])
        r = self._go(a, b)
        self.memo[k] = r
        return r

    def var(self, a, b, op):
        k = (a, b, op)
        if k not in self.vars:
            self.vars[k] = fresh(op)
        return self.vars[k]

    def _go(self, a, b):
        ch = self.children(a, b)
        small = self.size(a) + self.size(b) <= 160
        if ch is None:
            q = self.local(a, b)
            if q is True:
                return frozenset()
            return frozenset([None]) if q is None else frozenset([(a, b)])
        out = set()
        for x, y in ch:
            out |= self.go(x, y)
        if out and small and self.local(a, b) is True:
            return frozenset()
        if len(out) > 12:
            out = set(sorted(out, key=lambda q: (q is not None, q and q[0].uid))[:12])
        return frozenset(out)

    def children(self, a, b):
        if a.op != b.op:
            return None
        if a.op in BIND1:
            v = self.var(a.args[0], b.args[0], 'k')
            sa = tuple(_subst_arg(x, {a.args[0]: v}, {}) for x in a.args[1:])
            sb = tuple(_subst_arg(x, {b.args[0]: v}, {}) for x in b.args[1:])
            return self.zip(sa, sb)
        if a.op == 'mu':
            v, c = self.var(a.args[1], b.args[1], 'k'), self.var(a.args[0], b.args[0], 'carry')
            ma, mb = {a.args[0]: c, a.args[1]: v}, {b.args[0]: c, b.args[1]: v}
            sa = (a.args[2],) + tuple(_subst_arg(x, ma, {}) for x in a.args[3:])
            sb = (b.args[2],) + tuple(_subst_arg(x, mb, {}) for x in b.args[3:])
            return self.zip(sa, sb)
        if a.op in ('and', 'or'):
            return self.multi(a.args, b.args)
        if a.op == 'phi' and a.args[0] is not b.args[0] and (a.args[1] is not b.args[1] or a.args[2] is not b.args[2]):
            # the cases may have been arranged differently
            if self.go(a.args[0], b.args[0]):
                return None
        if a.op == 'poly':
            pa, pb = as_poly(a), as_poly(b)
            ra = [m for m in pa if pb.get(m) != pa[m]]
            rb = [m for m in pb if pa.get(m) != pb[m]]
            if len(ra) != 1 or len(rb) != 1 or pa[ra[0]] != pb[rb[0]]:
                return None
            fa, fb = dict(ra[0]), dict(rb[0])
            xa = [q for q in fa if fb.get(q) != fa[q]]
            xb = [q for q in fb if fa.get(q) != fb[q]]
            if len(xa) == 1 and len(xb) == 1 and fa[xa[0]] == fb[xb[0]]:
                return [(xa[0], xb[0])]
            ka = {shape(q) + (fa[q],): q for q in xa}
            kb = {shape(q) + (fb[q],): q for q in xb}
            if len(ka) != len(xa) or len(kb) != len(xb) or set(ka) != set(kb):
                return None
            return [(ka[q], kb[q]) for q in ka]
        return self.zip(a.args, b.args)

    def multi(self, A, B):
        ra = [x for x in A if x not in B]
        rb = [x for x in B if x not in A]
        if len(ra) == len(rb) == 1:
            return [(ra[0], rb[0])]
        return None

    def zip(self, A, B):
        """pairs of terms of two argument tuples of the same shape, else None"""
        if len(A) != len(B):
            return None
        out = []
        for x, y in zip(A, B):
            if x is y:
                continue
            if isinstance(x, T) and isinstance(y, T):
                out.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                q = self.zip(x, y)
                if q is None:
                    return None
                out += q
            elif x != y:
                return None
        return out


def shape(x):
    """operator and callee of a term"""
    while x.op == 'idx' and isinstance(x.args[0], T):
        x = x.args[0]
    if x.op in ('call', 'scall') and x.args[0].op == 'g':
        return (x.op, x.args[0].args[0])
    if x.op in ('mcall', 'attr'):
        return (x.op, x.args[1])
    return (x.op, None)


def _compound(x):
    return x.op in ('and', 'or', 'phi')
