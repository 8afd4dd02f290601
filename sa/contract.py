"""Contract comparison: the value graph of a function of the tree under
analysis against the value graph of its reference definition."""
import ast
import time
from terms import *
import value as V
from compare import Differ, Facts, Sites
import program


class Verdict(object):
    spliced = frozenset()       # helpers both sides were evaluated through

    def __init__(self, status, diffs=(), why='', func=None):
        self.status = status        # 'equal' | 'violated' | 'undecided' | 'missing'
        self.diffs = diffs
        self.why = why
        self.func = func


def names_of(prog):
    s = set()
    for L in prog.funcs.values():
        for f in L:
            s.add(f.name)
    for n in prog.methods:
        s.add(n)
    return s


def quals_of(prog):
    return {(f.cls.name if f.cls else None, f.name)
            for L in list(prog.funcs.values()) + list(prog.methods.values()) for f in L}


def _len_carry(x):
    for y in walk(x):
        if y.op == 'mu':
            c = y.args[0]
            if any(z.op == 'call' and z.args[0] is G('len') and len(z.args[1]) == 1 and z.args[1][0] is c
                   for z in walk(y.args[3])):
                return True
    return False


class Contracts(object):
    def __init__(self, ref, act):
        self.ref, self.act = ref, act
        self.refnames = names_of(ref)
        self.actnames = names_of(act)
        ref.arrays = act.arrays = program.arrays(ref, act)
        self.vocab = None
        self._sum = {}
        self.stats = {'functions': 0, 'values': 0, 'effects': 0}

    def modes(self):
        # 1: splice only helpers the other side does not have
        yield ('new', lambda f: f.name not in self.refnames,
               lambda f: f.name not in self.actnames)
        # a helper whose name is also used elsewhere
        yield ('newqual', lambda f: f.name not in self.refnames or self.ref.get(f.module.path, f.qual) is None,
               lambda f: f.name not in self.actnames or self.act.get(f.module.path, f.qual) is None)
        # 2: private helpers on both sides
        p = lambda f: f.name.startswith('_') and not f.name.startswith('__')
        yield ('private', lambda f: p(f) or f.name not in self.refnames,
               lambda f: p(f) or f.name not in self.actnames)
        # 3: everything resolvable
        yield ('all', lambda f: True, lambda f: True)

    def summary(self, prog, func, selfcls, inline, mode, known, bind=None):
        key = (id(prog), func, selfcls, mode)
        if bind is None and key in self._sum:
            return self._sum[key]
        ev = V.Evaluator(prog, inline, known=known)
        s = ev.summarize(func, selfcls, bind)
        s.spliced = ev.spliced
        if any(isinstance(k, T) and k.op in ('list', 'dict', 'set', 'tup') for k in s.mem):
            # elements of a nested container changed: their readers are not followed
            s.spliced = frozenset()
        if bind is None:
            self._sum[key] = s
        return s

    # ------------------------------------------------------------ identity
    def binding(self, prog, m, name):
        """what a global name of module m denotes, as a comparable description"""
        if name in m.funcs:
            return ('func', m.path, name)
        if name in m.classes:
            return ('class', m.path, name)
        if name in m.imports:
            return ('import', m.imports[name])
        if name in m.consts:
            return ('const', ast.dump(m.consts[name]))
        return ('?', name)

    def identical(self, rf, af):
        if getattr(rf, '_dump', None) is None:
            rf._dump = dump_func(rf.node)
        if getattr(af, '_dump', None) is None:
            af._dump = dump_func(af.node)
        if rf._dump != af._dump:
            return False
        for n in ast.walk(rf.node):
            if isinstance(n, ast.Name):
                if self.binding(self.ref, rf.module, n.id) != self.binding(self.act, af.module, n.id):
                    return False
        return True

    DECOS = {'property', 'staticmethod', 'classmethod', 'contextmanager', 'setter', 'lru_cache', 'cache',
             'cached_property', 'memoize', 'abstractmethod'}

    def deco_diff(self, rf, af):
        r = sorted(d for d in rf.decorators() if d in self.DECOS)
        a = sorted(d for d in af.decorators() if d in self.DECOS)
        if r != a:
            return [('decorators', (), S(' '.join(r) or 'none'), S(' '.join(a) or 'none'))]
        return []

    def compare(self, path, qual, modes=None, full=False):
        rf = self.ref.get(path, qual)
        if rf is None:
            return Verdict('missing', why='no reference definition for %s:%s' % (path, qual))
        af = self.act.get(path, qual)
        if af is None:
            return Verdict('missing', why='%s: %s no longer exists' % (path, qual))
        rc = ac = None
        cn = qual.split('.')[0] if '.' in qual else None
        if cn:
            rc = self.ref.find_class_in(self.ref.by_path[path], cn)
            ac = self.act.find_class_in(self.act.by_path[path], cn)
        return self.compare_funcs(rf, rc, af, ac, modes, full)

    def compare_funcs(self, rf, rc, af, ac, modes=None, full=False):
        if self.identical(rf, af):
            if not full:
                return Verdict('equal', why='identical', func=af)
        dd = self.deco_diff(rf, af)
        if dd:
            return Verdict('violated', dd, 'decorators', af)
        try:
            v = self._compare_modes(rf, rc, af, ac, modes)
        finally:
            Deadline.at = None
        if v.status == 'undecided' and (v.why.startswith(('too big', 'recursion', 'loop')) or 'toobig' in v.why):
            import astdiff
            Deadline.at = time.time() + 20.
            try:
                st, why, sites = astdiff.compare(self.ref, rf, self.act, af)
            except (TooBig, RecursionError):
                return v
            finally:
                Deadline.at = None
            d = [('statement (%s)' % k, (), a, b) for k, a, b in sites]
            if self.vocab is None:
                self.build_vocab()
            if st == 'violated':
                for what, f, a, b in d:
                    r = self.why_undecided(a, b, True, frozenset()) if a.op != 'str' else None
                    if r is not None:
                        return Verdict('undecided', why=r, func=af)
            if st != 'undecided':
                return Verdict(st, d, why, af)
            v.why += '; ' + why
        return v

    LIMIT = 40.
    SPLIT = 6.

    def _compare_modes(self, rf, rc, af, ac, modes):
        first = None
        for mode, ai, ri in self.modes():
            if modes and mode not in modes:
                continue
            ass = None
            Deadline.at = time.time() + (self.LIMIT if not rf.module.path.endswith('.i') else 25.)
            try:
                rs = self.summary(self.ref, rf, rc, ri, mode, self.actnames)
                extra, bad = self.extra_params(rs, af)
                ass = self.summary(self.act, af, ac, ai, mode, self.refnames, extra or None)
                d = self.diff(rs, ass, bad)
            except TooBig as e:
                d = None
                v = Verdict('undecided', why='too big: ' + str(e), func=af)
            except RecursionError:
                d = None
                v = Verdict('undecided', why='recursion limit', func=af)
            if d is None and mode == 'new' and rf.module.path.endswith('.i') and (rf.module.path, rf.qual) and \
                    time.time() > Deadline.at:
                # the value graph of this function is out of reach in every mode
                return v
            if d == []:
                v = Verdict('equal', why='value graph', func=af)
                v.spliced = rs.spliced & ass.spliced
                return v
            if d is not None:
                st, why = self.classify(d, rs, ass)
                if st == 'violated' and rf.node.args.vararg and \
                        len(rf.node.args.args) < len(af.node.args.args):
                    # *args spelled out as parameters (or the reverse)
                    st, why = 'undecided', 'parameter list form'
                v = Verdict(st, d, why, af)
            if first is None or (first.why.startswith('too big') and v.status != 'undecided'):
                first = v
        return first

    def extra_params(self, rs, af):
        """parameters the tree adds to the reference signature: they must have
        defaults and are fixed to them"""
        names = [n for n, d in rs.sig[0]]
        ev = V.Evaluator(self.act)
        ctx = V.Ctx(af, af.module, af.cls, af.cls)
        sg = ev.signature(af.node, V.State({}, {}, TRUE, [], []), ctx)
        extra = {}
        for n, d in sg[0]:
            if n not in names:
                if d is None:
                    return {}, ('parameter %s added without a default' % n)
                extra[n] = d
        return extra, None

    def diff(self, rs, as_, bad=None):
        out = []
        D = Differ()
        rn = {n: d for n, d in rs.sig[0]}
        an = {n: d for n, d in as_.sig[0]}
        if bad:
            out.append(('signature', (), S('as declared'), S(bad)))
        for n, d in rs.sig[0]:
            if n not in an:
                out.append(('signature', (), S(n), t('undef')))
            elif (d is None) != (an[n] is None):
                out.append(('default of ' + n, (), d or t('undef'), an[n] or t('undef')))
            elif d is not None and an[n] is not d and D.diff(d, an[n]):
                out.append(('default of ' + n, (), d, an[n]))
        ro = [n for n, d in rs.sig[0] if n in an]
        ao = [n for n, d in as_.sig[0] if n in rn]
        if ro != ao:
            out.append(('argument order', (), S(str(ro)), S(str(ao))))
        if len(as_.sig[0]) <= len(rs.sig[0]):
            if rs.sig[1] and not as_.sig[1]:
                out.append(('signature', (), S('accepts further positional arguments'), S('does not')))
            if rs.sig[2] and not as_.sig[2]:
                out.append(('signature', (), S('accepts further keyword arguments'), S('does not')))
        for n in sorted((as_.sig[3] - rs.sig[3]) & set(rn)):
            out.append(('signature', (), S(n + ' may be given by position'), S('by keyword only')))
        # values left behind matter only where no exception leaves the function
        rg = mk_or(*[g for g, e in rs.raises]) if rs.raises else FALSE
        ag = mk_or(*[g for g, e in as_.raises]) if as_.raises else FALSE
        gone = t('raised')

        sites = Sites()
        split = [self.SPLIT]
        seen = set()

        def go(a, b):
            D.n = 0
            D.until = time.time() + split[0]
            return D.diff(a, b)

        def D_(a, b):
            if split[0] != self.SPLIT and a is not b:
                s = sites.run(a, b)
                if s is not None and all((x, y) in seen for f, x, y in s):
                    return s
            d = go(a, b)
            if d and (rg is not FALSE or ag is not FALSE):
                d = go(mk_phi(rg, gone, a), mk_phi(ag, gone, b))
            return big(d, a, b)

        def big(d, a, b):
            """the case split was cut off: look for the differing places"""
            if any(contains(x, lambda y: y.op == 'toobig') for f, x, y in d):
                split[0] = 1.5
                s = sites.run(a, b)
                if s is not None:
                    seen.update((x, y) for f, x, y in s)
                    return s
            return d
        for f, a, b in D_(rs.ret, as_.ret):
            out.append(('return value', f, a, b))
        keys = list(rs.mem)
        only = [k for k in rs.mem if k not in as_.mem]
        same = {}
        for k in as_.mem:
            if k not in rs.mem:
                # the same place, reached by a differently written expression
                for j in only:
                    if j not in same and isinstance(j, tuple) == isinstance(k, tuple):
                        if isinstance(k, tuple):
                            eq = j[2] == k[2] and go(j[1], k[1]) == []
                        else:
                            eq = j.op == k.op and go(j, k) == []
                        if eq:
                            same[j] = k
                            break
                else:
                    keys.append(k)
        for k in keys:
            dk = t('attr', k[1], k[2], 0) if isinstance(k, tuple) else k
            a = rs.mem.get(k, dk)
            b = as_.mem.get(same.get(k, k), dk)
            nm = '%r.%s' % (k[1], k[2]) if isinstance(k, tuple) else repr(k)
            for f, x, y in D_(a, b):
                out.append(('state of ' + nm, f, x, y))
        ra, aa = evlist(rs.events), evlist(as_.events)
        for f, x, y in big(go(ra, aa), ra, aa):
            out.append(('effects', f, x, y))
        rr, ar = rlist(rs.raises), rlist(as_.raises)
        for f, x, y in big(go(rr, ar), rr, ar):
            out.append(('exceptions', f, x, y))
        return out

    # ------------------------------------------------------------ classify
    def build_vocab(self):
        v = set()
        for prog in (self.ref,):
            for m in prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        v.add(n.attr)
                    elif isinstance(n, ast.Name):
                        v.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        v.add(n.name)
                    elif isinstance(n, ast.keyword) and n.arg:
                        v.add(n.arg)
                    elif isinstance(n, ast.arg):
                        v.add(n.arg)
        v |= PURE_BUILTINS
        v |= {'numpy', 'pi', 'inf', 'nan', 'sqrt', 'dot', 'abs'}
        self.vocab = v

    # a function newly used by the tree may merely re-express what the
    # reference writes with one of these
    REEXPRESS = {
        'dot': ('sum', 'matmul', 'mul'), 'matmul': ('dot',), 'einsum': ('sum', 'dot'), 'vdot': ('sum', 'dot'),
        'inner': ('sum', 'dot'), 'tensordot': ('sum', 'dot'), 'multiply': ('poly',), 'add': ('poly',),
        'subtract': ('poly',), 'divide': ('poly',), 'true_divide': ('poly',), 'negative': ('poly',),
        'square': ('poly',), 'power': ('poly',), 'hypot': ('sqrt', 'poly'), 'reciprocal': ('poly',),
        'norm': ('sqrt', 'hypot'), 'clip': ('minimum', 'maximum', 'min', 'max', 'relu', 'phi', 'lt0', 'le0'),
        'minimum': ('clip', 'phi', 'min'), 'maximum': ('clip', 'phi', 'max'), 'fmin': ('minimum', 'min'),
        'fmax': ('maximum', 'max'), 'where': ('phi', 'upd', 'store', 'flatnonzero', 'nonzero', 'lt0', 'le0'),
        'select': ('phi', 'where', 'upd'), 'nonzero': ('where', 'flatnonzero', 'argwhere'),
        'flatnonzero': ('where', 'nonzero', 'argwhere'), 'argwhere': ('where', 'nonzero', 'flatnonzero'),
        'count_nonzero': ('sum', 'len'), 'isnan': ('isfinite', 'eq'), 'isinf': ('isfinite',), 'isfinite': ('isnan', 'isinf'),
        'logical_and': ('op', 'and', 'mul'), 'logical_or': ('op', 'or'), 'logical_not': ('op', 'not'),
        'concatenate': ('append', 'hstack', 'vstack', 'list'), 'hstack': ('append', 'concatenate', 'list'),
        'vstack': ('append', 'concatenate', 'list', 'array'), 'stack': ('array', 'concatenate', 'list'),
        'array': ('list', 'asarray'), 'asarray': ('array',), 'full': ('zeros', 'ones', 'empty'),
        'full_like': ('zeros_like', 'ones_like'), 'ones': ('zeros', 'full'), 'zeros': ('empty', 'full', 'zeros_like'),
        'zeros_like': ('zeros',), 'ones_like': ('ones',), 'empty': ('zeros',), 'empty_like': ('zeros_like',),
        'ravel': ('flat', 'flatten', 'reshape'), 'reshape': ('ravel', 'flat'), 'flatten': ('ravel', 'flat'),
        'transpose': ('T', 'swapaxes'), 'swapaxes': ('transpose', 'T'), 'outer': ('poly', 'idx'),
        'arange': ('range',), 'deg2rad': ('pi', 'poly'), 'radians': ('pi', 'poly', 'deg2rad'), 'rad2deg': ('pi', 'poly'),
        'degrees': ('pi', 'poly'), 'log2': ('log',), 'log10': ('log',), 'log': ('log10',), 'log1p': ('log',),
        'expm1': ('exp',), 'exp2': ('exp', 'pow'), 'cumsum': ('sum', 'fin'), 'prod': ('poly', 'fin'),
        'trace': ('poly',), 'det': ('poly',), 'amax': ('max',), 'amin': ('min',), 'max': ('amax', 'phi', 'lt0', 'le0', 'relu'),
        'min': ('amin', 'phi', 'lt0', 'le0', 'relu'), 'fabs': ('abs',), 'abs': ('fabs', 'relu', 'phi'), 'sign': ('phi',),
        'any': ('or', 'any', 'sum'), 'all': ('and', 'any'), 'sum': ('sum', 'fin', 'poly', 'dot'), 'nansum': ('sum',),
        'len': ('shape', 'size'), 'round': ('int', 'rint', 'floor'),
        'rint': ('round', 'int'), 'floor': ('int',), 'ceil': ('int',), 'int': ('floor', 'astype', 'round'), 'float': ('poly',),
        'dict': ('dict',), 'sorted': ('sort',), 'issubset': ('in',), 'get': ('in', 'phi', 'idx'), 'setdefault': ('in',),
        'count': ('sum', 'len', 'ncount'), 'index': ('first', 'enumerate'), 'ones_like': ('ones', 'zeros_like'),
        'take': ('idx',), 'tolist': ('list',), 'copy': ('array',), 'array_equal': ('all', 'eq'), 'allclose': ('all', 'abs'),
        'mod': ('op',), 'fmod': ('op',), 'divmod': ('op',), 'items': ('keys', 'idx'), 'keys': ('items',), 'values': ('items', 'idx'),
    }
    LOOPY = ('fin', 'mu', 'lastv', 'until', 'whiledom', 'while', 'forever', 'exc', 'excval', 'lam', 'lamv', 'with',
             'enter', 'after', 'ncount', 'rank', 'first', 'star', 'ignored', 'undef')

    def classify(self, diffs, rs, as_):
        if self.vocab is None:
            self.build_vocab()
        same = True
        rnames = anames = frozenset()
        if rs is not None:
            same = skeleton(rs.func.node, self.ref, self.actnames) == skeleton(as_.func.node, self.act, self.refnames)
            rnames = summary_names(rs)
        reasons = []
        for what, facts, a, b in diffs:
            r = self.why_undecided(a, b, same, rnames)
            if r is None:
                for f in facts:
                    r = self.why_undecided(TRUE, f, True, rnames)
                    if r is not None:
                        break
            if r is None:
                return 'violated', what
            reasons.append(r)
        return 'undecided', '; '.join(sorted(set(reasons)))

    def why_undecided(self, a, b, same, rnames):
        opa = {y.op for y in walk(a)}
        opb = {y.op for y in walk(b)}
        for y in walk(b):
            if y.op in ('unk', 'lost', 'toobig'):
                return 'not understood: %s' % (y.args[-1] if y.args else y.op)
            if not same and y.op in self.LOOPY and y.op not in opa:
                return 'loop/handler form %s' % y.op
        for y in walk(a):
            if y.op in ('unk', 'lost', 'toobig'):
                return 'reference not understood: %s' % ((y.op,) + tuple(str(z)[:60] for z in y.args),)
            if y.op == 'undef':
                return 'undefined on this path in the reference'
            if y.op in ('attr', 'mcall') and y.args[0] is NONE:
                return 'a path on which the reference fails'
            if not same and y.op in ('fin', 'mu', 'first', 'until', 'lastv') and \
                    y.op not in opb and b.op not in ('none', 'poly', 'str', 'true', 'false'):
                return 'loop form %s' % y.op
        if a.op == 'range' and a.args[0].op == 'attr' and b.op in ('range', 'zipn'):
            # self.n against the length of what self holds
            for y in (b.args[0] if b.op == 'zipn' else (b,)):
                z = y.args[0] if y.op == 'range' else y
                if z.op == 'call' and z.args[0] is G('len') and len(z.args[1]) == 1 and \
                        z.args[1][0].op == 'attr' and z.args[1][0].args[0] is a.args[0].args[0]:
                    return 'number of elements restated'
        if _len_carry(b) and not _len_carry(a) and any(y.op in ('mu', 'for') for y in walk(a)):
            return 'length of a list while it is built'
        na, nb = term_names(a), term_names(b)
        for n in nb - na:
            if n in self.REEXPRESS:
                ev = self.REEXPRESS[n]
                if any(x in na or x in opa for x in ev) or (n not in rnames and any(x in rnames for x in ev)):
                    if self.plausible(n, a, b):
                        return 'possibly the same in terms of %s' % n
            if n not in self.vocab and n not in NPNAMES:
                if self.renamed(n):
                    return 'renamed attribute %s' % n
        return None

    ROUNDERS = {'round', 'rint', 'floor', 'ceil', 'trunc', 'floor_divide', 'int', 'astype'}

    def plausible(self, n, a, b):
        """could the tree's use of n in b be what a writes otherwise?  Only
        the functions whose re-expressions are few are examined; a cast to
        int re-expresses a rounding only of something rounded already, a
        length only the size of the same object"""
        if n not in ('int', 'len', 'floor', 'ceil', 'round', 'rint'):
            return True
        old = set(walk(a))
        L = [y for y in walk(b) if y.op == 'call' and y.args[0].op == 'g' and
             y.args[0].args[0].split('.')[-1] == n and y not in old]
        if not L:
            return True
        for y in L:
            if len(y.args[1]) != 1 or y.args[2]:
                return True
            x = y.args[1][0]
            if not isinstance(x, T):
                return True
            if n == 'len':
                sized = [z for z in old if z.op == 'attr' and z.args[1] in ('shape', 'size') and
                         (z.args[0] is x or z.args[0] in set(walk(x)))]
                count = x.op == 'mcall' and x.args[1] in ('getParams', 'getParamNames', 'getStepSizes') and any(
                    z.op == 'mcall' and z.args[1] == 'numberOfParams' and z.args[0] is x.args[0] for z in old)
                if not sized and not count and x.op in ('mcall', 'attr', 'p', 'k'):
                    return False
            else:
                inner = term_names(x) & self.ROUNDERS
                other = term_names(a) & self.ROUNDERS
                if not inner and not any(z.op == 'fdiv' or (z.op == 'op' and '//' in z.args) for z in walk(x)) \
                        and 'astype' not in other and other and other != {n}:
                    return False
        return True

    def renamed(self, n):
        """a name the tree introduces while one of the reference's disappears"""
        if not hasattr(self, '_gone'):
            av = set()
            for m in self.act.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute):
                        av.add(x.attr)
            rv = set()
            for m in self.ref.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute):
                        rv.add(x.attr)
            self._gone = rv - av
        return bool(self._gone)


NPNAMES = set(Contracts.REEXPRESS) | {'sqrt', 'exp', 'sin', 'cos', 'tan', 'arctan2', 'arctan', 'pi', 'inf', 'nan'}

_tn = {}


def term_names(x):
    r = _tn.get(x)
    if r is None:
        s = set()
        for y in walk(x):
            if y.op in ('attr', 'mcall'):
                s.add(y.args[1])
            elif y.op == 'g':
                s.add(y.args[0].split('.')[-1])
        r = _tn[x] = frozenset(s)
    return r


def summary_names(s):
    r = getattr(s, '_names', None)
    if r is None:
        r = set()
        L = [s.ret] + list(s.mem.values()) + [x for ge in s.events for x in ge] + [x for ge in s.raises for x in ge]
        for x in L:
            if isinstance(x, T):
                r |= term_names(x)
                r |= {y.op for y in walk(x)}
        s._names = r
    return r


def skeleton(node, prog, known, depth=0, seen=None):
    """multiset of loops, handlers, comprehensions and loop exits of a
    function and of the helpers only this tree has"""
    import collections
    c = collections.Counter()
    seen = set() if seen is None else seen

    def go(n, inloop):
        for ch in ast.iter_child_nodes(n):
            il = inloop
            if isinstance(ch, (ast.For, ast.While)):
                c[type(ch).__name__] += 1
                il = True
            elif isinstance(ch, ast.Try):
                c['Try'] += 1
            elif isinstance(ch, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                c['comp'] += len(ch.generators)
            elif isinstance(ch, ast.Lambda):
                c['lambda'] += 1
            elif isinstance(ch, ast.Break):
                c['break'] += 1
            elif isinstance(ch, (ast.Yield, ast.YieldFrom)):
                c['yield'] += 1
            elif isinstance(ch, ast.Return) and inloop:
                c['retloop'] += 1
            elif isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                c['def'] += 1
            elif isinstance(ch, ast.Call):
                f = ch.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm in ('map', 'filter', 'sum', 'any', 'all', 'zip', 'next', 'reduce') and isinstance(f, ast.Name):
                    c['call ' + nm] += 1
                if nm is not None and nm not in known and nm not in seen and depth < 4:
                    L = prog.methods.get(nm, []) + prog.funcs.get(nm, [])
                    if len(L) == 1:
                        seen.add(nm)
                        c.update(skeleton(L[0].node, prog, known, depth + 1, seen))
            go(ch, il)
    go(node, False)
    return c


def evlist(evs):
    return mk_list([('cond', g, (('it', e),), ()) for g, e in evs])


def rlist(rs):
    return mk_list([('cond', g, (('it', e),), ()) for g, e in rs])


def dump_func(node):
    """the definition without docstrings (names of the function kept)"""
    import copy
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.dump(node)


def report(path, qual, v):
    out = []
    for what, facts, a, b in v.diffs[:6]:
        out.append('%s: %s: %s' % (path, qual, what))
        if facts:
            out.append('    when %s' % ' and '.join(show(f, 6) for f in facts))
        out.append('    expected %s' % show(a, 9)[:600])
        out.append('    found    %s' % show(b, 9)[:600])
    return out
