"""Gated value graph of one Python function, built in one pass over its syntax
tree: joins become phi terms, loops become closed recursive terms, helper calls
that the caller asks for are spliced in.  No path is enumerated and nothing is
executed; every construct that is not understood becomes an 'unk' term, which
makes the result undecided rather than wrong."""
import copy
import ast
import time
from fractions import Fraction
from terms import *
from terms import _subst_arg, _iter_T
import terms as TT

UNDEF = t('undef')

IMPURE_PREFIX = ('set', '_set', 'add', '_add', 'append', 'extend', 'remove',
                 'insert', 'pop', 'clear', 'update', 'freeze', 'thaw',
                 'unfreeze', 'write', 'put', 'sort', 'fill', 'prepend',
                 'reset', 'trim', 'discard', '__setitem__', 'optimize',
                 'tryUpdates', 'perform_', 'execute', 'retrieve')
GLOBAL_SETTERS = ('setParam', 'setParams', 'setAllParams', 'freeze', 'thaw',
                  'unfreeze', '_setThing', 'setStepSizes', 'setValue',
                  'setAllStepSizes', 'tryUpdates', 'optimize')
IGNORED_CALLS = {'print', 'logmsg', 'logverb', 'logdebug', 'debug', 'info',
                 'verbose', 'log', 'warning', 'warn', 'isverbose', 'Time',
                 'print_exc', 'flush', 'basicConfig', 'getLogger', 'add_mem'}
IGNORED_RECV = {'plt', 'logging', 'logger', 'warnings', 'traceback',
                'pylab', 'sys.stdout', 'sys.stderr', 'matplotlib', 'gc', 'pdb'}
ELEMENTWISE = {'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'arctan2',
               'arcsin', 'arccos', 'arctan', 'floor', 'ceil', 'deg2rad',
               'rad2deg', 'isfinite', 'isnan', 'hypot', 'sign', 'log1p',
               'expm1', 'radians', 'degrees', 'sinh', 'cosh', 'tanh', 'atan2'}
RENAME = {'amax': 'max', 'amin': 'min', 'atan2': 'arctan2', 'radians': 'deg2rad',
          'degrees': 'rad2deg', 'product': 'prod', 'alltrue': 'all',
          'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'concat': 'concatenate'}
SAMELEN = {'getParams', 'getStepSizes', 'getLowerBounds', 'getUpperBounds', 'getMaxStep'}
ALLOC_NP = {'zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like',
            'array', 'arange', 'full', 'linspace', 'copy'}
REDUCE = {'sum', 'max', 'min', 'mean', 'prod', 'all', 'any', 'argmax', 'argmin',
          'median', 'cumsum', 'ravel', 'reshape', 'argsort', 'std', 'var',
          'nonzero', 'transpose', 'flatten'}


class State(object):
    __slots__ = ('env', 'mem', 'live', 'evts', 'eps')

    def __init__(self, env, mem, live, evts, eps):
        self.env = env
        self.mem = mem
        self.live = live
        self.evts = evts      # shared list of (guard, T)
        self.eps = eps        # list of (receiver term, roots, isglobal)

    def copy(self, live=None):
        return State(dict(self.env), dict(self.mem),
                     self.live if live is None else live, self.evts,
                     list(self.eps))


class Exit(object):
    __slots__ = ('guard', 'kind', 'val', 'env', 'mem')

    def __init__(self, guard, kind, val, env, mem):
        self.guard, self.kind, self.val = guard, kind, val
        self.env, self.mem = env, mem


class Ctx(object):
    """one function activation (or loop body)"""

    def __init__(self, func, module, cls, selfcls, parent=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.selfcls = selfcls
        self.exits = []
        self.imports = {}
        self.yref = None
        self.parent = parent


class Summary(object):
    pass


_wp = {}


def written_params(fn, stack=()):
    """parameters of a native function whose array it stores into"""
    r = _wp.get(fn)
    if r is not None:
        return r
    ps = {x.arg for x in fn.node.args.args}
    out = set()

    def root(x):
        while True:
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                x = x.value
            elif isinstance(x, ast.IfExp):
                x = x.body
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'c_offset':
                x = x.args[0]
            else:
                break
        return x.id if isinstance(x, ast.Name) else None
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            out.add(root(n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in fn.module.funcs and \
                n.func.id not in stack and n.func.id != fn.name:
            g = fn.module.funcs[n.func.id]
            w = written_params(g, stack + (fn.name,))
            for x, a in zip(g.node.args.args, n.args):
                if x.arg in w:
                    out.add(root(a))
    out = frozenset(out & ps)
    if not stack:
        _wp[fn] = out
    return out


INPLACE = {'Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'BitOr', 'BitAnd', 'BitXor', 'Pow', 'Mod'}


class Evaluator(object):
    """prog: Program; inline(func)->bool says whether a resolved callee is
    spliced into the caller."""
    MAXDEPTH = 6
    BUDGET = 60000

    def __init__(self, prog, inline=None, selfcls=None, known=None, keep=()):
        self.prog = prog
        self.born = {}
        self.inline = inline or (lambda f: False)
        self.known = known
        self.depth = 0
        self.steps = 0
        self.lams = {}
        self.nexc = 0
        self.unks = []
        self.inplace = []
        self.spliced = set()
        self.lent = []
        self.loops = 0
        self.arrays = getattr(prog, 'arrays', None)
        self.top = None
        self.listcarry = set()
        self.inlined = []
        self.pending = []
        self.globals_ = set()
        self.topcls = None
        self.links = {}         # fresh object -> fresh objects it was given

    # ------------------------------------------------------------ utilities
    def unk(self, why, node=None):
        ln = getattr(node, 'lineno', 0)
        self.unks.append((why, ln))
        fresh.n += 1
        return t('unk', fresh.n, why)

    def tick(self):
        self.steps += 1
        if self.steps > self.BUDGET:
            raise TooBig('evaluation budget exceeded')
        if Deadline.at is not None and time.time() > Deadline.at:
            raise TooBig('time budget exceeded')

    def res(self, st, x):
        """replace fresh-object refs by their current contents"""
        for y in x.free:
            if y.op == 'ref':
                break
        else:
            return x
        for i in range(20):
            m = {}
            for y in walk(x):
                if y.op == 'ref':
                    c = st.mem.get(y)
                    if c is None:
                        c = t('lost', *y.args)
                    # attributes stored on a fresh object
                    at = [(k[2], v) for k, v in st.mem.items()
                          if isinstance(k, tuple) and k[0] == '@' and k[1] is y]
                    if at:
                        c, at = self.fold_fields(c, at)
                    if at:
                        c = t('obj', c, tuple(sorted(at, key=lambda z: z[0])))
                    m[y] = c
            if not m:
                return x
            x = subst(x, m)
        return x

    def alloc(self, st, content):
        r = fresh('ref')
        st.mem[r] = content
        self.born[r] = len(st.eps)
        return r

    # roots of a term: parameters/globals it reaches
    _roots = {}

    def roots(self, x):
        r = self._roots.get(x)
        if r is None:
            s = set()
            for y in walk(x):
                if y.op in ('p',):
                    s.add(y.args[0])
                elif y.op in ('carry', 'ref'):
                    s.add(y)
            r = frozenset(s)
            self._roots[x] = r
        return r

    def chain(self, x):
        out = [x]
        while x.op in ('attr', 'idx'):
            x = x.args[0]
            out.append(x)
        return out

    def ep_attr(self, st, base):
        if not st.eps:
            return 0
        ch = self.chain(base)
        return sum(1 for (r, roots, gl) in st.eps if r in ch)

    def ep_call(self, st, terms):
        if not st.eps:
            return 0
        rs = set()
        for x in terms:
            rs |= self.roots(x)
        return sum(1 for (r, roots, gl) in st.eps if gl or (roots & rs))

    # --------------------------------------------------------------- function
    def summarize(self, func, selfcls=None, bind=None):
        node = func.node
        cls = func.cls
        ctx = Ctx(func, func.module, cls, selfcls or cls)
        self.topcls = selfcls or cls
        self.top = (func.module.path, func.qual)
        st = State({}, {}, TRUE, [], [])
        S_ = Summary()
        S_.sig = self.signature(node, st, ctx)
        for nm in self.argnames(node):
            st.env[nm] = t('p', nm)
        if node.args.vararg:
            st.env[node.args.vararg.arg] = t('p', '*' + node.args.vararg.arg)
        if node.args.kwarg:
            st.env[node.args.kwarg.arg] = t('p', '**' + node.args.kwarg.arg)
        if bind:
            st.env.update(bind)
        gen = is_generator(node)
        if gen:
            ctx.yref = self.alloc(st, t('list'))
        self.block(node.body, st, ctx)
        exits = list(ctx.exits)
        if st.live is not FALSE:
            exits.append(Exit(st.live, 'return', NONE, st.env, st.mem))
        S_.gen = gen
        S_.func = func
        S_.ctx = ctx
        rets = [e for e in exits if e.kind == 'return']
        raises = [e for e in exits if e.kind == 'raise']

        def st_of(e):
            return State(e.env, e.mem, e.guard, [], [])
        if gen:
            vals = [(e.guard, self.res(st_of(e), ctx.yref)) for e in rets]
        else:
            vals = [(e.guard, self.res(st_of(e), e.val)) for e in rets]
        S_.ret = chain_phi(vals)
        S_.raises = [(e.guard, e.val) for e in raises] + self.pending
        S_.events = st.evts
        # final memory, non-fresh locations
        keys = []
        for e in rets:
            for k in e.mem:
                if isinstance(k, tuple):
                    if k[1].op == 'ref' or contains(k[1], lambda y: y.op == 'ref'):
                        continue
                elif k.op == 'ref':
                    continue
                if isinstance(k, T) and k.op == 'attr':
                    k = ('@', k.args[0], k.args[1])
                if k not in keys:
                    keys.append(k)
        S_.mem = {}
        for k in keys:
            vs = []
            for e in rets:
                es = st_of(e)
                if k in e.mem:
                    v = e.mem[k]
                    v = self.res(es, leafvalue(e.mem, v))
                else:
                    v = self.defread(k)
                    for kk in e.mem:
                        if isinstance(kk, T) and kk.op == 'attr' and isinstance(k, tuple) \
                                and kk.args[0] is k[1] and kk.args[1] == k[2]:
                            v = self.res(es, e.mem[kk])
                vs.append((e.guard, v))
            v = chain_phi(vs)
            if v is self.defread(k):
                continue
            S_.mem[k] = self.lamres(v, st_of(rets[0]), ctx)
        if rets:
            S_.ret = self.lamres(S_.ret, st_of(rets[0]), ctx)
        for n in sorted(self.globals_):
            vs = [(e.guard, self.res(st_of(e), e.env[n])) for e in rets if n in e.env]
            v = chain_phi(vs) if vs else t('gv', n)
            if v is not t('gv', n):
                S_.mem[('@', t('module'), n)] = v
        S_.unks = list(self.unks)
        S_.inplace = list(self.inplace)
        S_.inlined = list(self.inlined)
        return S_

    def defread(self, k):
        if isinstance(k, tuple):
            return t('attr', k[1], k[2], 0)
        return k

    def argnames(self, node):
        a = node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def signature(self, node, st, ctx):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defs = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
        out = []
        for n, d in zip(names, defs):
            out.append((n, self.ev(d, st, ctx) if d is not None else None))
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((n.arg, self.ev(d, st, ctx) if d is not None else None))
        return (tuple((n, self.res(st, d) if d is not None else None) for n, d in out),
                a.vararg is not None, a.kwarg is not None, frozenset(x.arg for x in a.kwonlyargs))

    # ----------------------------------------------------------------- blocks
    def block(self, stmts, st, ctx):
        for s in stmts:
            if st.live is FALSE:
                break
            self.stmt(s, st, ctx)

    def stmt(self, s, st, ctx):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk('stmt ' + type(s).__name__, s)
            return
        if isinstance(s, (ast.For, ast.While)):
            self.loops += 1
            try:
                m(s, st, ctx)
            finally:
                self.loops -= 1
            return
        m(s, st, ctx)

    def lend(self, st, name, objs):
        """an unknown routine is handed objects some of whose attributes were set here"""
        if self.loops:
            return
        for k, v in list(st.mem.items()):
            if isinstance(k, tuple) and k[0] == '@' and k[1].op != 'ref' and any(k[1] is o for o in objs):
                self.lent.append((st.live, name, k, self.res(st, self.value(st, v))))

    def overwrite(self, st, key, val):
        """an attribute set here is set again: what it held meanwhile was seen by the calls in between"""
        if self.loops or not self.lent:
            return
        val = self.res(st, self.value(st, val))
        for e in list(self.lent):
            g, name, k, v = e
            if k[1] is key[1] and k[2] == key[2]:
                g = mk_and(g, st.live)
                if g is FALSE:
                    continue
                self.lent.remove(e)
                if v is not val:
                    st.evts.append((g, t('holding', k[1], k[2], v, name)))

    def s_Pass(self, s, st, ctx):
        pass

    def s_Assert(self, s, st, ctx):
        pass

    def s_Global(self, s, st, ctx):
        if ctx.parent is not None or self.depth:
            self.unk('global statement', s)
            return
        for n in s.names:
            if n not in st.env:
                st.env[n] = t('gv', n)
            self.globals_.add(n)

    def s_Nonlocal(self, s, st, ctx):
        self.unk('nonlocal statement', s)

    def s_Import(self, s, st, ctx):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = G(a.name)
            else:
                st.env[a.name.split('.')[0]] = G(a.name.split('.')[0])

    def s_ImportFrom(self, s, st, ctx):
        out = {}
        self.prog.scan_importfrom(ctx.module, s, out)
        for k, q in out.items():
            st.env[k] = G(self.canon_name(q))

    def canon_name(self, q):
        pk, _, nm = q.rpartition('.')
        if pk in self.prog.modules or pk.split('.')[0] in ('tractor', 'wise'):
            if q in self.prog.modules:
                return q
            return nm
        return q

    def s_FunctionDef(self, s, st, ctx):
        fresh.n += 1
        l = t('lam', fresh.n)
        self.lams[l] = (s, st.env, ctx)
        st.env[s.name] = l

    def s_ClassDef(self, s, st, ctx):
        st.env[s.name] = t('lcls', s.name)

    def s_Delete(self, s, st, ctx):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                st.env.pop(tg.id, None)
            elif isinstance(tg, ast.Attribute):
                b = self.ev_obj(tg.value, st, ctx)
                self.put(st, ('@', b, tg.attr), t('deleted'))
            elif isinstance(tg, ast.Subscript):
                k = self.ev_obj(tg.value, st, ctx)
                i = self.res(st, self.ev(tg.slice, st, ctx))
                self.put(st, k, t('upd', self.content(st, k), i, t('deleted'), '='))

    def s_Expr(self, s, st, ctx):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.ev(v, st, ctx)
            return
        if isinstance(v, ast.Call):
            if self.ignored_call(v, st, ctx):
                return
            self.ev_call(v, st, ctx, stmt=True)
            return
        self.ev(v, st, ctx)

    def ignored_call(self, v, st, ctx):
        f = v.func
        if isinstance(f, ast.Name):
            if f.id in IGNORED_CALLS and f.id not in st.env:
                return True
        if isinstance(f, ast.Attribute):
            r = dotted(f.value)
            if r in IGNORED_RECV or (r and r.split('.')[0] in IGNORED_RECV):
                return True
            if f.attr in ('flush', 'print_exc', 'debug', 'info', 'warning'):
                return True
        return False

    def s_Return(self, s, st, ctx):
        v = NONE if s.value is None else self.ev_keep(s.value, st, ctx)
        ctx.exits.append(Exit(st.live, 'return', v, dict(st.env), dict(st.mem)))
        st.live = FALSE

    def s_Raise(self, s, st, ctx):
        nm = '?'
        e = s.exc
        if e is not None:
            if isinstance(e, ast.Call):
                e = e.func
            nm = dotted(e) or '?'
        ctx.exits.append(Exit(st.live, 'raise', S(nm.split('.')[-1]), dict(st.env), dict(st.mem)))
        st.live = FALSE

    def s_Break(self, s, st, ctx):
        ctx.exits.append(Exit(st.live, 'break', None, dict(st.env), dict(st.mem)))
        st.live = FALSE

    def s_Continue(self, s, st, ctx):
        ctx.exits.append(Exit(st.live, 'continue', None, dict(st.env), dict(st.mem)))
        st.live = FALSE

    # ----------------------------------------------------------- assignments
    def s_Assign(self, s, st, ctx):
        v = self.ev_keep(s.value, st, ctx)
        for tg in s.targets:
            self.assign(tg, v, st, ctx)

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            self.assign(s.target, self.ev_keep(s.value, st, ctx), st, ctx)

    def put(self, st, key, val):
        if isinstance(key, T) and key.op in ('poly', 'fin', 'upd', 'op', 'sum'):
            # a computed array held only by local names: one fresh object
            hold = [n for n, v in st.env.items() if v is key]
            if hold:
                r = fresh('ref')
                for n in hold:
                    st.env[n] = r
                st.mem.pop(key, None)
                st.mem[r] = val
                return
        st.mem[key] = val
        if isinstance(key, tuple) and val is key:
            del st.mem[key]

    def assign(self, tg, v, st, ctx):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            cv = v
            if v.op == 'ref':
                cv = st.mem.get(v, v)
            for i, e in enumerate(tg.elts):
                if stars:
                    if i == stars[0]:
                        hi = i - len(tg.elts) + 1
                        x = mk_idx(self.value(st, cv), mk_slice(num(i), num(hi) if hi else NONE, NONE))
                        self.assign(e.value, x, st, ctx)
                        continue
                    if i > stars[0]:
                        i = i - len(tg.elts)
                self.assign(e, self.getitem(st, self.value(st, cv), num(i)), st, ctx)
        elif isinstance(tg, ast.Attribute):
            b = self.ev_obj(tg.value, st, ctx)
            if b.op == 'ref' and self.is_held(b):
                st.evts.append((st.live, t('store', self.res(st, b), tg.attr, self.res(st, v))))
            self.overwrite(st, ('@', b, tg.attr), v)
            self.put(st, ('@', b, tg.attr), v)
        elif isinstance(tg, ast.Subscript):
            k = self.ev_obj(tg.value, st, ctx)
            i = self.res(st, self.ev(tg.slice, st, ctx))
            self.store_item(st, k, i, v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, ctx)
        else:
            self.unk('assign target', tg)

    def store_item(self, st, k, i, v):
        if k.op == 'coff':
            # a C pointer into the middle of an array
            if i.op == 'slice':
                lo, hi, sp = i.args
                i = mk_slice(k.args[1] if lo is NONE else mk_add(k.args[1], lo),
                             NONE if hi is NONE else mk_add(k.args[1], hi), sp)
            else:
                i = mk_add(k.args[1], i)
            return self.store_item(st, k.args[0], i, v)
        old = self.content(st, k)
        new = self.mk_upd(old, i, v)
        # writing through a view such as a.ravel()[i] = v writes a
        self.put(st, k, new)

    def mk_upd(self, old, i, v):
        if i.op == 'str' and (old.op == 'dict' or (old.op == 'mcall' and old.args[1] == 'copy')):
            base = old.args if old.op == 'dict' else ((None, old),)
            items = [(k, x) for k, x in base if k is not i]
            return mk_dict(*(tuple(items) + ((i, v),)))
        if old.op == 'list' and all(p[0] == 'it' for p in old.args):
            n = numval(i)
            if n is not None and n.denominator == 1 and \
                    -len(old.args) <= n < len(old.args):
                L = list(old.args)
                L[int(n)] = ('it', v)
                return t('list', *L)
        return upd_at(old, i, v)

    def content(self, st, k):
        """current value held at object key k"""
        if k in st.mem:
            return st.mem[k]
        if k.op == 'ref':
            return t('lost', *k.args)
        return k

    def value(self, st, x):
        """rvalue of an object term"""
        if x.op != 'ref' and x in st.mem:
            return st.mem[x]
        if x.op == 'coff':
            return TT.mk_coff(self.value(st, x.args[0]), x.args[1])
        return x

    def s_AugAssign(self, s, st, ctx):
        op = type(s.op).__name__
        v = self.res(st, self.ev(s.value, st, ctx))
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = st.env.get(tg.id)
            if cur is None:
                cur = self.ev(tg, st, ctx)
            if cur.op == 'ref':
                c = self.content(st, cur)
                if op == 'Add' and (c.op == 'list' or c in self.listcarry or is_listy(v) or v.op == 'tup'):
                    c2 = mk_list(parts_of(c) + parts_of(v))
                else:
                    c2 = self.binop(op, c, v)
                st.mem[cur] = c2
                return
            c = self.value(st, cur)
            if op in INPLACE and self.arrayish(cur):
                # an array that belongs to somebody else is updated in place
                self.inplace.append((st.live, cur, s))
                if cur.op == 'idx':
                    b, i = cur.args
                    old = self.content(st, b)
                    self.put(st, b, self.mk_upd(old, i, self.binop(op, self.res(st, mk_idx(old, i)), v)))
                else:
                    self.put(st, cur, self.binop(op, self.res(st, c), v))
                return
            if cur.op in ('attr', 'p', 'mcall', 'idx', 'call') and cur is not None:
                self.inplace.append((st.live, cur, s))
                if not self.live_after(ctx, tg.id, s):
                    # only an in-place update can be meant
                    st.evts.append((st.live, t('inplace', op, self.res(st, c), v)))
            if op == 'Add' and c in self.listcarry and (is_listy(v) or v.op == 'tup'):
                r = mk_list(parts_of(c) + parts_of(v))
            else:
                r = self.binop(op, self.res(st, c), v)
            st.env[tg.id] = r
        elif isinstance(tg, ast.Attribute):
            b = self.ev_obj(tg.value, st, ctx)
            cur = self.getattr_obj(st, b, tg.attr)
            if cur.op == 'ref':
                c = self.content(st, cur)
                st.mem[cur] = self.binop(op, c, v)
                return
            c = self.value(st, cur)
            if op in INPLACE and cur.op == 'attr' and cur.args[1] == tg.attr and self.arrayish(cur):
                self.inplace.append((st.live, cur, s))
                st.evts.append((st.live, t('inplace', op, self.res(st, c), v)))
            self.put(st, ('@', b, tg.attr), self.binop(op, c, v))
            if cur in st.mem:
                del st.mem[cur]
        elif isinstance(tg, ast.Subscript):
            k = self.ev_obj(tg.value, st, ctx)
            i = self.res(st, self.ev(tg.slice, st, ctx))
            old = self.content(st, k)
            self.put(st, k, self.mk_upd(old, i, self.binop(op, self.res(st, mk_idx(old, i)), v)))
        else:
            self.unk('augassign', s)

    def arrayish(self, x):
        """x is memory some other holder may see, and is known to be an array"""
        ev = self.arrays
        if ev is None:
            return False
        if x.op == 'p':
            return self.top is not None and (self.top + (x.args[0],)) in ev[2]
        if x.op == 'attr':
            return x.args[1] in ev[0]
        if x.op == 'mcall':
            return x.args[1] in ev[1]
        if x.op == 'idx' and x.args[1].op in ('slice', 'tup'):
            return (x.args[1].op == 'slice' or any(sliceish(y) for y in x.args[1].args)) and \
                x.args[0].op in ('p', 'attr', 'mcall') and self.arrayish(x.args[0])
        return False

    def live_after(self, ctx, nm, s):
        """can the name be read after statement s of this function?"""
        node = ctx.func.node
        M = getattr(node, '_after', None)
        if M is None:
            M = node._after = {}
        k = (nm, id(s))
        if k not in M:
            loops = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While)) and any(x is s for x in ast.walk(n))]
            inside = {id(x) for x in ast.walk(s)}
            M[k] = False
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                    if (n.lineno, n.col_offset) > (s.lineno, s.col_offset) or \
                            any(x is n for l in loops for x in ast.walk(l)):
                        M[k] = True
                elif isinstance(n, ast.AugAssign) and n is not s and isinstance(n.target, ast.Name) and n.target.id == nm:
                    if n.lineno > s.lineno:
                        M[k] = True
        return M[k]

    # -------------------------------------------------------------------- if
    def s_If(self, s, st, ctx):
        c = self.cond(s.test, st, ctx)
        self.branch(c, s.body, s.orelse, st, ctx)

    def branch(self, c, body, orelse, st, ctx):
        if c is TRUE:
            return self.block(body, st, ctx)
        if c is FALSE:
            return self.block(orelse, st, ctx)
        a = st.copy(mk_and(st.live, c))
        b = st.copy(mk_and(st.live, mk_not(c)))
        if a.live is not FALSE:
            self.block(body, a, ctx)
        if b.live is not FALSE:
            self.block(orelse, b, ctx)
        self.merge(c, st, a, b)

    def merge(self, c, st, a, b):
        if a.live is FALSE:
            st.env, st.mem, st.live, st.eps = b.env, b.mem, b.live, b.eps
            return
        if b.live is FALSE:
            st.env, st.mem, st.live, st.eps = a.env, a.mem, a.live, a.eps
            return
        env = {}
        mem = {}
        newref = {}
        for k in set(a.mem) | set(b.mem):
            if k in a.mem and k in b.mem:
                x, y = a.mem[k], b.mem[k]
            elif isinstance(k, T) and k.op == 'ref':
                mem[k] = a.mem.get(k, b.mem.get(k))
                continue
            elif k in a.mem:
                x, y = a.mem[k], self.defread2(k, b)
            else:
                x, y = self.defread2(k, a), b.mem[k]
            if x is y:
                mem[k] = x
            else:
                if x.op == 'ref':
                    x = self.res(a, x)
                if y.op == 'ref':
                    y = self.res(b, y)
                mem[k] = mk_phi(c, x, y)
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            if x is y:
                env[k] = x
            elif x.op == 'ref' or y.op == 'ref':
                kk = (x, y)
                if kk not in newref:
                    r = fresh('ref')
                    mem[r] = mk_phi(c, self.res(a, self.value(a, x)),
                                    self.res(b, self.value(b, y)))
                    newref[kk] = r
                env[k] = newref[kk]
            elif x is UNDEF and not (y.op == 'lam'):
                env[k] = mk_phi(c, UNDEF, y)
            else:
                env[k] = mk_phi(c, x, y)
        st.env, st.mem = env, mem
        st.live = mk_or(a.live, b.live)
        st.eps = a.eps if len(a.eps) >= len(b.eps) else b.eps

    def defread2(self, k, st):
        if isinstance(k, tuple):
            if k[1].op == 'ref':
                return mk_attr(st.mem.get(k[1], UNDEF), k[2], 0)
            return t('attr', k[1], k[2], 0)
        return k

    # ------------------------------------------------------------------- with
    def s_With(self, s, st, ctx):
        for it in s.items:
            nm = dotted(it.context_expr.func) if isinstance(it.context_expr, ast.Call) else None
            v = self.res(st, self.ev(it.context_expr, st, ctx))
            if nm and nm.split('.')[-1] in ('errstate', 'catch_warnings', 'Time'):
                pass
            else:
                self.event(st, t('with', v), [v], None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, t('enter', v), st, ctx)
        self.block(s.body, st, ctx)

    # -------------------------------------------------------------------- try
    def s_Try(self, s, st, ctx):
        # import fallbacks etc: body, then guarded handlers
        n0 = len(ctx.exits)
        if all(isinstance(x, (ast.Import, ast.ImportFrom)) or inert(x) for x in s.body):
            self.block(s.body, st, ctx)
            self.block(s.orelse, st, ctx)
            self.block(s.finalbody, st, ctx)
            return
        if len(s.handlers) == 1 and not s.finalbody and not s.handlers[0].name and \
                s.handlers[0].type is not None and dotted(s.handlers[0].type) == 'KeyError':
            D, k = keyed(s.body)
            if D is not None:
                # fails exactly when the key is not there
                h = copy.deepcopy(s.handlers[0].body)
                for n in h:
                    for y in ast.walk(n):
                        if isinstance(y, ast.Raise) and y.exc is None:
                            y.exc = ast.copy_location(ast.Name('KeyError', ast.Load()), y)
                f = ast.copy_location(ast.If(ast.copy_location(ast.Compare(k, [ast.NotIn()], [D]), k),
                                             h, s.body + s.orelse), s)
                self.stmt(f, st, ctx)
                return
        before = st.copy()
        self.block(s.body, st, ctx)
        self.block(s.orelse, st, ctx)
        for h in s.handlers:
            self.nexc += 1
            ty = dotted(h.type) if h.type is not None and not isinstance(h.type, ast.Tuple) else (
                '*' if h.type is None else ','.join(sorted(filter(None, (dotted(x) for x in h.type.elts)))))
            c = t('exc', ty or '?', self.nexc)
            hs = before.copy(mk_and(before.live, c))
            if h.name:
                hs.env[h.name] = t('excval', self.nexc)
            self.block(h.body, hs, ctx)
            # exits recorded in the body happen only without the exception
            bs = st
            for e in ctx.exits[n0:]:
                if not occurs(e.guard, c):
                    e.guard = mk_and(e.guard, mk_not(c))
            bs.live = mk_and(bs.live, mk_not(c))
            m = State({}, {}, TRUE, st.evts, [])
            self.merge(c, m, hs, bs)
            st.env, st.mem, st.live, st.eps = m.env, m.mem, m.live, m.eps
        if s.finalbody:
            for e in ctx.exits[n0:]:
                es = State(e.env, e.mem, e.guard, st.evts, list(st.eps))
                c2 = Ctx(ctx.func, ctx.module, ctx.cls, ctx.selfcls, ctx)
                c2.imports = ctx.imports
                self.block(s.finalbody, es, c2)
                e.env, e.mem = es.env, es.mem
            if st.live is not FALSE:
                self.block(s.finalbody, st, ctx)

    # ------------------------------------------------------------------ loops
    def domain(self, it, st, ctx):
        """iteration space of an iterable expression: returns
        (kvar, dom, elem term, guard)"""
        k = fresh('k')
        d, e, g = self.dom_of(it, k, st, ctx)
        return k, d, e, g

    def dom_of(self, it, k, st, ctx):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id not in st.env and not it.keywords:
            f, a = it.func.id, it.args
            if f == 'enumerate' and 1 <= len(a) <= 2:
                d, e, g = self.dom_of(a[0], k, st, ctx)
                i = k
                if len(a) == 2:
                    i = mk_add(k, self.ev(a[1], st, ctx))
                if g is not TRUE:
                    c = fresh('carry')
                    bc, (body, dd) = bind(c, mk_add(c, mk_phi(g, num(1), ZERO)), d)
                    bk, (bc, body, dd) = bind(k, bc, body, dd)
                    n = t('at', k, t('mu', bc, bk, ZERO, body, dd))
                    i = mk_add(n, self.ev(a[1], st, ctx)) if len(a) == 2 else n
                return d, t('tup', i, e), g
            if f == 'zip' and a and not any(isinstance(x, ast.Starred) for x in a):
                ds, es, gs = [], [], []
                for x in a:
                    d, e, g = self.dom_of(x, k, st, ctx)
                    ds.append(d)
                    es.append(e)
                    gs.append(g)
                if all(g is TRUE for g in gs):
                    return self.mk_zipdom(ds), t('tup', *es), TRUE
                # a filtered side is not index-aligned: take it as a sequence of its own
                for j, (d, e, g) in enumerate(zip(list(ds), list(es), gs)):
                    if g is not TRUE:
                        k2 = fresh('k')
                        m = {k: k2}
                        v = mk_list((mk_forpart(k2, subst(d, m), (
                            ('cond', subst(g, m), (('it', subst(e, m)),), ()),)),))
                        ds[j], es[j] = t('range', self.mk_len(v)), mk_idx(v, k)
                return self.mk_zipdom(ds), t('tup', *es), TRUE
            if f in ('range', 'xrange'):
                vs = [self.res(st, self.ev(x, st, ctx)) for x in a]
                if len(vs) == 1:
                    return t('range', vs[0]), k, TRUE
                if len(vs) == 2:
                    return t('range', mk_sub(vs[1], vs[0])), mk_add(vs[0], k), TRUE
                return (t('range3', *vs), mk_add(vs[0], mk_mul(vs[2], k)), TRUE)
            if f in ('list', 'tuple', 'iter') and len(a) == 1:
                return self.dom_of(a[0], k, st, ctx)
        v = self.ev(it, st, ctx)
        v = self.res(st, self.value(st, v))
        return self.dom_val(v, k, st)

    def dom_val(self, v, k, st):
        if v.op == 'list' and len(v.args) == 1:
            p = v.args[0]
            if p[0] == 'splat':
                return self.dom_val(p[1], k, st)
            if p[0] == 'for':
                b, d, parts = p[1].args
                if len(parts) == 1:
                    q = parts[0]
                    if q[0] == 'it':
                        return subst(d, {b: k}), subst(q[1], {b: k}), TRUE
                    if q[0] == 'cond' and len(q[2]) == 1 and q[2][0][0] == 'it' and not q[3]:
                        return (d, subst(q[2][0][1], {b: k}), subst(q[1], {b: k}))
                    if q[0] == 'cond' and len(q[3]) == 1 and q[3][0][0] == 'it' and not q[2]:
                        return (d, subst(q[3][0][1], {b: k}), mk_not(subst(q[1], {b: k})))
        if v.op == 'call' and v.args[0] is G('range') and len(v.args[1]) == 1:
            return t('range', v.args[1][0]), k, TRUE
        return t('range', self.mk_len(v)), mk_idx(v, k), TRUE

    def mk_zipdom(self, ds):
        out = []
        for d in ds:
            for x in (d.args[0] if d.op == 'zipn' else (d,)):
                if x not in out:
                    out.append(x)
        if len(out) == 1:
            return out[0]
        return t('zipn', tuple(sorted(out, key=lambda x: x.uid)))

    def mk_len(self, v):
        if v.op == 'tup':
            return num(len(v.args))
        if v.op == 'list':
            tot = ZERO
            ok = True
            for p in v.args:
                if p[0] == 'it':
                    tot = mk_add(tot, num(1))
                elif p[0] == 'splat':
                    tot = mk_add(tot, self.mk_len(p[1]))
                elif p[0] == 'for' and len(p[1].args[2]) == 1 and p[1].args[2][0][0] == 'it':
                    n = self.domcount(p[1].args[1])
                    if n is None:
                        ok = False
                        break
                    tot = mk_add(tot, n)
                else:
                    ok = False
                    break
            if ok:
                return tot
        if v.op == 'rep' and v.args[0].op == 'list':
            return mk_mul(self.mk_len(v.args[0]), v.args[1])
        if v.op == 'phi':
            return mk_phi(v.args[0], self.mk_len(v.args[1]), self.mk_len(v.args[2]))
        if v.op == 'upd' and v.args[1].op != 'slice':
            return self.mk_len(v.args[0])
        if v.op == 'str':
            return num(len(v.args[0]))
        if v.op == 'call' and v.args[0].op == 'g' and v.args[0].args[0] in ('list', 'tuple', 'sorted', 'reversed') and len(v.args[1]) == 1:
            return self.mk_len(v.args[1][0])
        return raw_len(v)

    def domcount(self, d):
        if d.op == 'range':
            return d.args[0]
        return None

    def s_For(self, s, st, ctx):
        self.tick()
        # literal sequences are unrolled
        seq = self.literal_seq(s.iter, st, ctx)
        if seq is not None and len(seq) <= 8:
            live0, left = st.live, []
            for v in seq:
                if st.live is FALSE:
                    break
                self.assign(s.target, v, st, ctx)
                self.once(s.body, st, ctx, left)
            if st.live is not FALSE:
                self.block(s.orelse, st, ctx)
            self.rejoin(left, st, live0)
            return
        self.loop(s, st, ctx, s.iter, s.target, None, s.body, s.orelse)

    def once(self, body, st, ctx, left):
        """one iteration of an unrolled loop; breaks are collected in left"""
        n0, live0 = len(ctx.exits), st.live
        self.block(body, st, ctx)
        mine = [e for e in ctx.exits[n0:] if e.kind in ('break', 'continue')]
        ctx.exits[n0:] = [e for e in ctx.exits[n0:] if e.kind not in ('break', 'continue')]
        left.extend(e for e in mine if e.kind == 'break')
        self.rejoin([e for e in mine if e.kind == 'continue'], st, live0)

    def rejoin(self, exits, st, live0):
        for e in exits:
            es = State(e.env, e.mem, e.guard, st.evts, list(st.eps))
            b = st.copy()
            self.merge(assume(e.guard, live0), st, es, b)

    def literal_seq(self, it, st, ctx):
        if isinstance(it, (ast.List, ast.Tuple)) and not any(
                isinstance(e, ast.Starred) for e in it.elts):
            return [self.ev_keep(e, st, ctx) for e in it.elts]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
            if it.func.id == 'enumerate' and len(it.args) == 1:
                s = self.literal_seq(it.args[0], st, ctx)
                if s is not None:
                    return [t('tup', num(i), v) for i, v in enumerate(s)]
            if it.func.id == 'zip' and it.args:
                ss = [self.literal_seq(a, st, ctx) for a in it.args]
                if any(x is not None for x in ss):
                    n = min(len(x) for x in ss if x is not None)
                    full = []
                    for a, x in zip(it.args, ss):
                        if x is None:
                            v = self.res(st, self.ev(a, st, ctx))
                            x = [mk_idx(v, num(i)) for i in range(n)]
                        full.append(x)
                    return [t('tup', *[x[i] for x in full]) for i in range(n)]
            if it.func.id == 'range' and 1 <= len(it.args) <= 2 and all(simple_count(a) for a in it.args):
                vs = [numval(self.res(st, self.ev(a, st, ctx))) for a in it.args]
                if all(v is not None and v.denominator == 1 for v in vs):
                    vs = [int(v) for v in vs]
                    if len(range(*vs)) <= 8:
                        return [num(i) for i in range(*vs)]
        if isinstance(it, ast.Name) and it.id in st.env:
            v = st.env[it.id]
            c = self.content(st, v) if v.op == 'ref' else v
            if c.op == 'tup':
                return list(c.args)
            if c.op == 'list' and all(p[0] == 'it' for p in c.args):
                return [p[1] for p in c.args]
            if c.op == 'call' and c.args[0] is G('range') and not c.args[2] and 1 <= len(c.args[1]) <= 2:
                vs = [numval(x) for x in c.args[1]]
                if all(x is not None and x.denominator == 1 for x in vs):
                    vs = [int(x) for x in vs]
                    if len(range(*vs)) <= 8:
                        return [num(i) for i in range(*vs)]
        return None

    def s_While(self, s, st, ctx):
        # a test decided by constants: unrolled like the counted form
        if simple_test(s.test):
            b = st.copy()
            b.evts = list(st.evts)
            live0, left, n0 = st.live, [], len(ctx.exits)
            kept = (list(self.unks), list(self.inplace), list(ctx.exits))
            done = False
            for i in range(9):
                c = self.cond(s.test, b, ctx)
                if c is FALSE:
                    done = i > 0
                    break
                if c is not TRUE or i == 8 or b.live is FALSE:
                    break
                self.once(s.body, b, ctx, left)
            if done:
                if b.live is not FALSE:
                    self.block(s.orelse, b, ctx)
                self.rejoin(left, b, live0)
                st.env, st.mem, st.live, st.eps = b.env, b.mem, b.live, b.eps
                st.evts[:] = b.evts
                return
            self.unks, self.inplace = kept[:2]
            ctx.exits[:] = kept[2]
        self.loop(s, st, ctx, None, None, s.test, s.body, s.orelse)

    def loop(self, s, st, ctx, it, target, test, body, orelse):
        if it is not None:
            k, dom, elem, g0 = self.domain(it, st, ctx)
        else:
            k, dom, elem, g0 = fresh('k'), t('while'), None, TRUE
        assigned = assigned_names(body) | (assigned_names_target(target) if target is not None else set())
        tnames = assigned_names_target(target) if target is not None else set()
        # names holding a fresh ref that are rebound in the loop lose the ref
        for nm in assigned:
            v = st.env.get(nm)
            if v is not None and v.op == 'ref' and rebinds(body, nm):
                st.env[nm] = self.res(st, v)
        carried = {}       # key -> carry term;  key = ('v', name) or ('m', memkey)
        for nm in sorted(assigned):
            if nm in st.env and nm not in tnames and st.env[nm].op != 'ref':
                cv = carried[('v', nm)] = fresh('carry')
                if st.env[nm].op == 'list':
                    self.listcarry.add(cv)
        induct = {}        # name -> closed form
        hasev = False
        whiledom = None
        for attempt in range(8):
            bctx = Ctx(ctx.func, ctx.module, ctx.cls, ctx.selfcls, ctx)
            bctx.imports = ctx.imports
            bctx.yref = ctx.yref
            b = State(dict(st.env), dict(st.mem), TRUE, [], list(st.eps))
            if hasev:
                for e in evroots:
                    b.eps.append(e)
            for key, c in carried.items():
                if key[0] == 'v':
                    b.env[key[1]] = c
                else:
                    b.mem[key[1]] = c
            for key, c in induct.items():
                if key[0] == 'v':
                    b.env[key[1]] = c
                else:
                    b.mem[key[1]] = c
            saved = (list(self.unks), list(self.inplace))
            brk0 = FALSE
            if target is not None:
                self.assign(target, elem, b, bctx)
            wcond = TRUE
            if test is not None:
                wcond = self.cond(test, b, bctx)
                b.live = wcond
            else:
                b.live = g0
            binit = b.copy()
            self.block(body, b, bctx)
            exits = bctx.exits
            conts = [e for e in exits if e.kind == 'continue']
            brks = [e for e in exits if e.kind == 'break']
            rets = [e for e in exits if e.kind == 'return']
            raises = [e for e in exits if e.kind == 'raise']
            ends = [(e.guard, e.env, e.mem) for e in conts]
            if b.live is not FALSE:
                ends.append((b.live, b.env, b.mem))
            if g0 is not TRUE:
                ends.append((mk_not(g0), binit.env, binit.mem))

            # new memory keys mutated in the body become carried
            newmem = set()
            itermem = set()
            own = {c for key, c in carried.items() if key[0] == 'v'}
            if own:
                for m, e in [(m, e) for g, e, m in ends] + [(x.mem, x.env) for x in brks + rets]:
                    hit = [c for c in own if c in m]
                    for c in hit:
                        for nm, v in list(e.items()):
                            if v is c:
                                e[nm] = m[c]
                        del m[c]
            for (g, e, m) in ends + [(x.guard, x.env, x.mem) for x in brks]:
                for kk, vv in m.items():
                    if ('m', kk) in carried or ('m', kk) in induct:
                        continue
                    if isinstance(kk, T) and kk.op == 'ref' and kk not in st.mem:
                        continue    # allocated inside the body
                    if isinstance(kk, tuple) and kk[1].op == 'ref' and kk[1] not in st.mem:
                        continue
                    if isinstance(kk, T) and kk.op == 'carry' and kk in own:
                        continue    # the object a carried variable names
                    if (st.mem[kk] if kk in st.mem else self.defread(kk)) is not vv:
                        if key_has(kk, k):
                            # location depends on the loop index: a store per
                            # iteration, recorded as an effect
                            itermem.add(kk)
                        else:
                            newmem.add(kk)
            newev = bool(b.evts)
            if newmem or (newev and not hasev):
                for kk in newmem:
                    cv = carried[('m', kk)] = fresh('carry')
                    if kk in st.mem and st.mem[kk].op == 'list':
                        self.listcarry.add(cv)
                if newev and not hasev:
                    hasev = True
                    evroots = b.eps[len(st.eps):]
                self.unks, self.inplace = saved
                continue

            # update of every carried value at the end of an iteration; the
            # next one is reached only if this one did not leave the loop
            stays = mk_not(mk_or(*[e.guard for e in brks + rets + raises])) if brks or rets or raises else TRUE
            upd = {}
            rel = list(ends)
            if len(ends) > 2:
                # each way to end the iteration, given that it is this one or a later one
                gs = [g for g, e, m in ends]
                for i in range(len(ends)):
                    u = mk_or(*gs[i:])
                    if u.op != 'or':
                        rel[i] = (assume(gs[i], u),) + ends[i][1:]
            for key, c in carried.items():
                vals = []
                for (g, e, m) in rel:
                    es = State(e, m, g, [], [])
                    if key[0] == 'v':
                        v = e.get(key[1], UNDEF)
                    else:
                        v = m.get(key[1], c)
                    vals.append((assume(g, stays), self.res(es, self.value(es, v) if v.op == 'ref' else v)))
                upd[key] = chain_phi(vals) if vals else c
            # unchanged values are invariant: rerun without carrying them
            drop = [key for key, c in carried.items()
                    if upd[key] is c and all(self._exit_val(e, key, c) is c for e in brks)]
            # induction variables
            newind = {}
            for key, c in carried.items():
                if key in drop:
                    continue
                u = upd[key]
                if u.op == 'poly':
                    d = mk_sub(u, c)
                    if not contains(d, lambda y: y.op in ('carry', 'k', 'ref', 'unk') and y is not None) \
                            and not occurs(d, c) and d.op == 'poly' and numval(d) is not None:
                        init = self._init(st, key)
                        if not is_listy(init) and init is not UNDEF:
                            newind[key] = mk_add(init, mk_mul(d, k))
            if drop or newind:
                if hasev:
                    # effects named through a variable whose value is now known
                    sm = {carried[q]: newind[q] if q in newind else self._init(st, q) for q in drop + list(newind)}
                    sm = {c: v for c, v in sm.items() if isinstance(v, T) and v.op != 'ref' and v is not UNDEF}
                    if sm:
                        ev = []
                        for r, rs, gl in evroots:
                            rs2 = set()
                            for x in rs:
                                rs2 |= self.roots(sm[x]) if x in sm else {x}
                            ev.append((subst(r, sm) if isinstance(r, T) else r, frozenset(rs2), gl))
                        evroots = ev
                for key in drop:
                    del carried[key]
                for key, v in newind.items():
                    del carried[key]
                    induct[key] = v
                self.unks, self.inplace = saved
                continue
            break
        else:
            self.unk('loop did not stabilise', s)
            for nm in assigned:
                st.env[nm] = self.unk('loop var', s)
            return

        # while loops with an induction variable are counted loops
        if test is not None:
            if wcond is TRUE:
                dom = t('forever')
            else:
                dom = None
                if wcond.op in ('le0', 'lt0'):
                    p = wcond.args[0]
                    if not contains(p, lambda y: y.op == 'carry'):
                        pk = as_poly(p)
                        ck = pk.get(((k, 1),))
                        rest = from_poly({m: c for m, c in pk.items() if m != ((k, 1),)})
                        if ck == 1 and not occurs(rest, k):
                            # k + rest <= 0 -> k < 1 - rest
                            n = mk_sub(num(1), rest) if wcond.op == 'le0' else mk_neg(rest)
                            dom = t('range', n)
                            # inside the counted loop its own test holds
                            upd = {q: assume(u, wcond) for q, u in upd.items()}
                            for e in brks + rets + raises:
                                e.guard = assume(e.guard, wcond)
                                if isinstance(e.val, T) and e.val.op != 'ref':
                                    e.val = assume(e.val, wcond)
                            ends = [(assume(g, wcond), e, m) for g, e, m in ends]
                            stays = assume(stays, wcond)
                            b.evts = [(assume(g, wcond), e) for g, e in b.evts]
                if dom is None:
                    dom = t('while')

        # ---- close the loop
        order = sorted(carried, key=lambda z: carried[z].uid)
        mus = {}

        def at_of(key, stack):
            """the carried value at the start of iteration k"""
            c = carried[key]
            if c in stack:
                return None
            init = self._init(st, key)
            u = upd[key]
            pu = as_poly(u)
            if u.op == 'poly' and pu.get(((c, 1),)) == 1 and TT._polyish(init) and init is not NONE:
                rest = from_poly({m: cc for m, cc in pu.items() if m != ((c, 1),)})
                if not occurs(rest, c) and not is_listy(init):
                    if dom.op == 'range' and not contains(rest, lambda y: y is k or y.op in ('carry', 'at', 'mu')):
                        return mk_add(init, mk_mul(k, rest))
                    neg = TT.negative(rest)
                    r = mu_of(key, stack, ZERO, mk_add(c, mk_neg(rest) if neg else rest))
                    a = t('at', k, r)
                    return mk_add(init, mk_neg(a) if neg else a)
            r = mu_of(key, stack)
            return None if r is None else t('at', k, r)

        def mu_of(key, stack, init=None, body_=None):
            c = carried[key]
            if c in stack:
                return None
            kk = (key, tuple(sorted(x.uid for x in stack)), init)
            if kk in mus:
                return mus[kk]
            if body_ is None:
                body_ = upd[key]
            m = {}
            for key2 in order:
                c2 = carried[key2]
                if c2 is c or c2 in stack:
                    continue
                if occurs(body_, c2) or (test is not None and occurs(wcond, c2)):
                    r = at_of(key2, stack + (c,))
                    if r is not None:
                        m[c2] = r
            if m:
                body_ = subst(body_, m)
            if init is None:
                init = self._init(st, key)
            if TT._own_index(body_, c, k):
                # the element of this iteration has not been stored to yet
                body_ = subst(body_, {t('idx', c, k): mk_idx(init, k)})
            dd = dom
            if dom.op == 'while':
                w = subst(wcond, m) if m else wcond
                dd = close('whiledom', k, w)
            elif stays is not TRUE and stays is not FALSE:
                w = mk_not(stays)
                if not any(occurs(w, c2) for c2 in carried.values()):
                    dd = close('until', k, w, dd)
            # close carry then index
            bc, (body_, dd) = bind(c, body_, dd)
            bk, (bc2, init2, body_, dd) = bind(k, bc, init, body_, dd)
            r = t('mu', bc2, bk, init2, body_, dd)
            mus[kk] = r
            return r

        atm = {}
        for key in order:
            atm[carried[key]] = at_of(key, ())

        def closed(x):
            return subst(x, atm) if atm else x

        if dom.op == 'while':
            dom = close('whiledom', k, closed(wcond))
        # exits
        bg = mk_or(*[closed(e.guard) for e in brks]) if brks else FALSE
        rg = mk_or(*[closed(e.guard) for e in rets]) if rets else FALSE
        wg = mk_or(*[closed(e.guard) for e in raises]) if raises else FALSE
        xg = mk_or(bg, rg, wg)
        udom = dom
        if xg is not FALSE:
            udom = close('until', k, xg, dom)

        def any_(g):
            return mk_any(k, g, dom)

        def first_(v):
            """value at the first iteration that leaves the loop"""
            return mk_first(k, xg, v, dom)

        # events
        if b.evts or itermem:
            evs = []
            for (g, e) in b.evts:
                evs.append((closed(g), closed(e)))
            def loc(kk):
                return t('loc', kk[1], kk[2]) if isinstance(kk, tuple) else t('loc', kk)
            for kk in sorted(itermem, key=lambda z: show(loc(z), 9)):
                gs, vs, lc = [], [], None
                old = self.defread(kk)
                for (g, e, m) in ends + [(x.guard, x.env, x.mem) for x in brks + rets]:
                    if kk in m:
                        es = State(e, m, g, [], [])
                        v = self.res(es, m[kk])
                        l = self.res(es, loc(kk))
                        if v is old:
                            continue
                        if lc is not None and l is not lc:
                            evs.append((closed(mk_or(*gs)), t('store', closed(lc), closed(chain_phi(vs)))))
                            gs, vs = [], []
                        lc = l
                        # a conditional store leaves the old value elsewhere
                        while v.op == 'phi':
                            if v.args[1] is not old and v.args[2] is not old and \
                                    v.args[1] is not assume(old, v.args[0]) and \
                                    v.args[2] is not assume(old, mk_not(v.args[0])):
                                break
                            if v.args[1] is old or v.args[1] is assume(old, v.args[0]):
                                g, v = mk_and(g, mk_not(v.args[0])), v.args[2]
                            else:
                                g, v = mk_and(g, v.args[0]), v.args[1]
                        if v.op == 'poly':
                            d_ = mk_sub(v, old)
                            sgn = 1
                            if d_.op == 'poly' and len(d_.args) == 1 and len(d_.args[0][0]) == 1 and d_.args[0][0][0][1] == 1:
                                sgn, d_ = d_.args[0][1], d_.args[0][0][0][0]
                            hit = False
                            while d_.op == 'phi' and (d_.args[1] is ZERO or d_.args[2] is ZERO):
                                hit = True
                                if d_.args[1] is ZERO:
                                    g, d_ = mk_and(g, mk_not(d_.args[0])), d_.args[2]
                                else:
                                    g, d_ = mk_and(g, d_.args[0]), d_.args[1]
                            if hit:
                                v = mk_add(old, mk_mul(num(sgn), d_))
                        gs.append(g)
                        vs.append((g, v))
                if gs:
                    evs.append((closed(mk_or(*gs)), t('store', closed(lc), closed(chain_phi(vs)))))
            bb, (evs2, dd) = bind(k, tuple(evs), udom)
            le = t('loopev', bb, dd, evs2)
            st.evts.append((st.live, le))
            for e in b.eps[len(st.eps):]:
                st.eps.append(e)
        # final values
        final = {}
        for key in order:
            final[key] = self._final(k, dom, udom, key, carried, upd, atm, st, mu_of)
        fin_env, fin_mem = {}, {}
        for key, v in final.items():
            if key[0] == 'v':
                fin_env[key[1]] = v
            else:
                fin_mem[key[1]] = v
        cnt = self.domcount(dom)
        for key, v in induct.items():
            init = self._init(st, key)
            if cnt is not None:
                fv = subst(v, {k: cnt})
            else:
                fv = subst(v, {k: t('ncount', udom)})
            if key[0] == 'v':
                fin_env[key[1]] = fv
            else:
                fin_mem[key[1]] = fv
        # names first bound inside the loop
        for nm in assigned:
            if ('v', nm) in carried or ('v', nm) in induct:
                continue
            if nm in st.env and nm not in tnames:
                continue     # loop-invariant, or an object mutated in place
            vals = []
            for (g, e, m) in ends:
                if nm in e:
                    es = State(e, m, g, [], [])
                    v = e[nm]
                    if v.op == 'lam':
                        continue
                    vals.append((closed(assume(g, stays)), closed(self.res(es, v))))
            if vals:
                v = chain_phi(vals)
                if nm in tnames and nm in st.env:
                    pass
                if contains(v, lambda y: y is k or y.op == 'at') or True:
                    fin_env[nm] = close('lastv', k, v, udom)
        base_env, base_mem = dict(st.env), dict(st.mem)
        nst_env, nst_mem = dict(st.env), dict(st.mem)
        nst_env.update(fin_env)
        nst_mem.update(fin_mem)
        if brks:
            # a break leaves with the values at that point
            benv, bmem = dict(nst_env), dict(nst_mem)
            names = set(fin_env) | {x for e in brks for x in e.env
                                    if e.env[x] is not st.env.get(x)}
            isbrk = any_(xg)
            for nm in sorted(names):
                vals = []
                for e in brks:
                    if nm in e.env:
                        es = State(e.env, e.mem, e.guard, [], [])
                        x = e.env[nm]
                        if x.op == 'lam':
                            continue
                        vals.append((closed(e.guard), closed(self.res(es, x))))
                if vals:
                    bv_ = first_(chain_phi(vals))
                    fv = nst_env.get(nm, UNDEF)
                    if fv.op == 'ref':
                        fv = self.res(State(nst_env, nst_mem, TRUE, [], []), fv)
                    nst_env[nm] = mk_phi(isbrk, bv_, fv)
            for kk in set(fin_mem) | {x for e in brks for x in e.mem if x in st.mem and e.mem[x] is not st.mem[x]}:
                vals = []
                for e in brks:
                    if kk in e.mem:
                        es = State(e.env, e.mem, e.guard, [], [])
                        vals.append((closed(e.guard), closed(self.res(es, e.mem[kk]))))
                if vals:
                    nst_mem[kk] = mk_phi(isbrk, first_(chain_phi(vals)),
                                         nst_mem.get(kk, self.defread(kk) if not (isinstance(kk, T) and kk.op == 'ref') else UNDEF))
        # returns out of the loop
        if rets:
            anyx = any_(xg)
            isret = first_(rg) if (bg is not FALSE or wg is not FALSE) else TRUE
            g = mk_and(anyx, isret)
            vals = []
            for e in rets:
                es = State(e.env, e.mem, e.guard, [], [])
                vals.append((closed(e.guard), closed(self.res(es, e.val))))
            rv = first_(chain_phi(vals))
            rmem = dict(nst_mem)
            for kk in set(x for e in rets for x in e.mem):
                if isinstance(kk, T) and kk.op == 'ref' and kk not in st.mem:
                    continue
                if all(e.mem.get(kk) is st.mem.get(kk) for e in rets):
                    continue
                vals = []
                for e in rets:
                    es = State(e.env, e.mem, e.guard, [], [])
                    vals.append((closed(e.guard), closed(self.res(es, e.mem[kk] if kk in e.mem else self.defread(kk)))))
                rmem[kk] = first_(chain_phi(vals))
            ctx.exits.append(Exit(mk_and(st.live, g), 'return', rv, dict(nst_env), rmem))
        if raises:
            anyx = any_(xg)
            isr = first_(wg) if (bg is not FALSE or rg is not FALSE) else TRUE
            g = mk_and(anyx, isr)
            ctx.exits.append(Exit(mk_and(st.live, g), 'raise',
                                  first_(chain_phi([(closed(e.guard), e.val) for e in raises])),
                                  dict(nst_env), dict(nst_mem)))
        st.env, st.mem = nst_env, nst_mem
        if rets or raises:
            anyx = any_(xg)
            if bg is FALSE:
                leave = anyx
            else:
                leave = mk_and(anyx, first_(mk_or(rg, wg)))
            st.live = mk_and(st.live, mk_not(leave))
        if orelse:
            if bg is FALSE:
                self.block(orelse, st, ctx)
            else:
                self.branch(mk_not(any_(xg)), orelse, [], st, ctx)

    def _exit_val(self, e, key, c):
        if key[0] == 'v':
            return e.env.get(key[1], UNDEF)
        return e.mem.get(key[1], c)

    def _init(self, st, key):
        if key[0] == 'v':
            v = st.env.get(key[1], UNDEF)
            if v.op == 'ref':
                v = self.res(st, v)
            return self.res(st, v)
        kk = key[1]
        if kk in st.mem:
            return self.res(st, st.mem[kk])
        return self.defread(kk)

    def _final(self, k, dom, udom, key, carried, upd, atm, st, mu_of):
        c = carried[key]
        u = upd[key]
        init = self._init(st, key)
        # list accumulation
        if u.op == 'list' and u.args and u.args[0] == ('splat', c):
            rest = u.args[1:]
            if not any(occurs(x, c) for x in _iter_T(rest)):
                rest = tuple(_subst_arg(rest, atm, {}))
                return mk_list(parts_of(init) + (mk_forpart(k, udom, rest),))
        if u.op == 'phi':
            # phi of list appends: only when both start with the carry
            if is_listy(u.args[1]) or is_listy(u.args[2]):
                pp = parts_of(u)
                if pp and pp[0] == ('splat', c):
                    rest = pp[1:]
                    if not any(occurs(x, c) for x in _iter_T(rest)):
                        rest = tuple(_subst_arg(rest, atm, {}))
                        return mk_list(parts_of(init) + (mk_forpart(k, udom, rest),))
        # dictionary filled entry by entry
        if init.op == 'dict' and not init.args:
            pp = dict_parts(u, c)
            if pp is not None and not any(occurs(x, c) for x in _iter_T(pp)):
                return t('call', G('dict'), (mk_list((mk_forpart(k, udom, tuple(_subst_arg(pp, atm, {}))),)),), (), 0)
        # numeric accumulation
        pu = as_poly(u)
        if pu.get(((c, 1),)) == 1 and not is_listy(init):
            rest = from_poly({m: cc for m, cc in pu.items() if m != ((c, 1),)})
            if not occurs(rest, c):
                rest = subst(rest, atm)
                return mk_add(init, mk_sum(k, rest, udom))
        # flag: sticky boolean / value set once
        mu = mu_of(key, ())
        if u.op in ('or',) and c in u.args:
            rest = mk_or(*[x for x in u.args if x is not c])
            if not occurs(rest, c) and is_bool(init):
                return mk_or(init, mk_any(k, subst(rest, atm), udom))
        if u.op in ('and',) and c in u.args:
            rest = mk_and(*[x for x in u.args if x is not c])
            if not occurs(rest, c) and is_bool(init):
                return mk_and(init, mk_not(mk_any(k, mk_not(subst(rest, atm)), udom)))
        if u.op == 'phi' and not (u.args[1] is c or u.args[2] is c):
            gv = sticky_tree(u, c)
            if gv is not None:
                u = mk_phi(gv[0], gv[1], c)
        if u.op == 'phi' and (u.args[1] is c or u.args[2] is c):
            g, v = (mk_not(u.args[0]), u.args[2]) if u.args[1] is c else (u.args[0], u.args[1])
            if not occurs(g, c) and not occurs(v, c) and not contains(v, lambda y: y is k or y.op in ('carry', 'k')):
                return mk_phi(mk_any(k, subst(g, atm), udom), v, init)
        return t('fin', mu, udom)

    # -------------------------------------------------------------- expressions
    def cond(self, e, st, ctx):
        return truth_of(self.res(st, self.ev(e, st, ctx)))

    def ev_obj(self, e, st, ctx):
        """object identity of an lvalue-ish expression (no content snapshot)"""
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return st.env[e.id]
            return self.ev(e, st, ctx)
        if isinstance(e, ast.Attribute):
            b = self.ev_obj(e.value, st, ctx)
            if b.op == 'g' and not self.class_data(b, e.attr, st, ctx):
                return self.ev(e, st, ctx)
            r = self.prop_read(b, e, st, ctx)
            if r is not None:
                return r
            return self.getattr_obj(st, b, e.attr)
        if isinstance(e, ast.Subscript):
            b = self.ev_obj(e.value, st, ctx)
            i = self.res(st, self.ev(e.slice, st, ctx))
            if b.op == 'coff' and i.op != 'slice':
                i = mk_add(b.args[1], i)
                b = b.args[0]
            c = self.content(st, b) if (b.op == 'ref' or b in st.mem) else b
            return mk_idx(c, i)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'c_offset':
            return self.ev(e, st, ctx)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr in ('ravel', 'view', 'reshape') :
            return self.ev_obj(e.func.value, st, ctx)
        v = self.ev(e, st, ctx)
        return v

    def getattr_obj(self, st, b, name):
        k = ('@', b, name)
        if k in st.mem:
            return st.mem[k]
        if b.op == 'phi' and (b.args[1].op == 'ref' or b.args[2].op == 'ref'):
            pass
        base = b
        if b.op == 'ref':
            base = self.res(st, b)
            v = self.ctor_field(base, name) if all(r is not None for r, _, _ in st.eps[self.born.get(b, 0):]) else None
            if v is not None:
                return v
            return mk_attr(base, name, 0)
        if b in st.mem:
            base = st.mem[b]
        return mk_attr(base, name, self.ep_attr(st, b))

    def fold_fields(self, base, at):
        """an attribute set on a freshly built object, when its constructor only stores the
        argument of that name, is that argument"""
        if base.op != 'call' or base.args[0].op != 'g' or base.args[1] or any(k == '**' for k, _ in base.args[2]):
            return base, at
        c = self.prog.find_class(base.args[0].args[0].rpartition('.')[2])
        if c is None:
            return base, at
        kw = dict(base.args[2])
        rest = []
        for n, v in at:
            a = sole_field(self.prog, c, n)
            if a is None:
                rest.append((n, v))
            else:
                kw[a] = v
        return t('call', base.args[0], (), tuple(sorted(kw.items())), *base.args[3:]), rest

    def ctor_field(self, base, name):
        """the constructor argument that attribute `name` of a freshly built object is"""
        if base.op != 'call' or base.args[0].op != 'g' or base.args[1]:
            return None
        c = self.prog.find_class(base.args[0].args[0].rpartition('.')[2])
        if c is None:
            return None
        a = simple_field(self.prog, c, name)
        if a is None:
            return None
        for k, v in base.args[2]:
            if k == a:
                return v
        return None

    def ev_keep(self, e, st, ctx):
        """evaluate for binding: aliases keep object identity"""
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.ev_obj(e, st, ctx)
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, st, ctx)
            if c is TRUE:
                return self.ev_keep(e.body, st, ctx)
            if c is FALSE:
                return self.ev_keep(e.orelse, st, ctx)
            return self.ifexp(c, e, st, ctx, True)
        if isinstance(e, ast.Subscript):
            v = self.ev(e, st, ctx)
            return v
        return self.ev(e, st, ctx)

    def ev(self, e, st, ctx):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expr ' + type(e).__name__, e)
        return m(e, st, ctx)

    def rv(self, e, st, ctx):
        return self.res(st, self.value(st, self.ev(e, st, ctx)))

    def e_Constant(self, e, st, ctx):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, str):
            return S(v)
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return ELL
        return t('const', repr(v))

    def e_Name(self, e, st, ctx):
        if e.id in st.env:
            v = st.env[e.id]
            return self.value(st, v)
        return self.global_name(e.id, ctx, st)

    def global_name(self, nm, ctx, st=None):
        m = ctx.module
        if nm in m.funcs or nm in m.classes:
            return G(nm)
        if nm in m.varying:
            return t('gv', nm)
        if nm in m.imports:
            return G(self.canon_name(m.imports[nm]))
        if nm in m.consts:
            v = m.consts[nm]
            if isinstance(v, ast.Constant) or (isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant)):
                return self.ev(v, State({}, {}, TRUE, [], []), ctx)
            return G(nm)
        if nm in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[nm]
        # star imports from repo modules
        for q in set(m.imports.values()):
            mm = self.prog.modules.get(q)
            if mm is not None and mm is not m and (nm in mm.funcs or nm in mm.classes):
                return G(nm)
            if mm is not None and nm in mm.imports and mm is not m:
                return G(self.canon_name(mm.imports[nm]))
        return G(nm)

    def e_Attribute(self, e, st, ctx):
        b = self.ev_obj(e.value, st, ctx)
        if b.op == 'g' and not self.class_data(b, e.attr, st, ctx):
            return canon_g(b.args[0] + '.' + e.attr)
        r = self.prop_read(b, e, st, ctx)
        if r is not None:
            return self.value(st, r)
        x = self.getattr_obj(st, b, e.attr)
        # class-level constants of self stay symbolic
        return self.value(st, x)

    def prop_read(self, b, e, st, ctx):
        """a property of self, spliced like a call"""
        if b is t('p', 'self') and ('@', b, e.attr) not in st.mem and isinstance(e.ctx, ast.Load):
            scls = ctx.selfcls or self.topcls
            fn = self.prog.lookup(scls, e.attr) if scls is not None else None
            if fn is not None and 'property' in fn.decorators() and self.inline(fn) and \
                    self.depth < self.MAXDEPTH and not self.overridden(scls, e.attr):
                return self.splice(fn, [b], (), st, ctx, scls)
        return None

    def class_data(self, b, attr, st, ctx):
        """a data attribute of a class of the tree (may be reassigned)"""
        if ('@', b, attr) in st.mem:
            return True
        if '.' in b.args[0]:
            return False
        c = self.prog.find_class(b.args[0], ctx.module)
        return c is not None and self.prog.lookup(c, attr) is None

    def e_Subscript(self, e, st, ctx):
        b = self.ev_obj(e.value, st, ctx)
        i = self.res(st, self.ev(e.slice, st, ctx))
        if b.op == 'coff' and i.op != 'slice':
            i = mk_add(b.args[1], i)
            b = b.args[0]
        c = self.content(st, b) if (b.op == 'ref' or b in st.mem) else b
        if c.op != 'list':
            c = self.res(st, c)
        return self.getitem(st, c, i)

    def getitem(self, st, c, i):
        r = mk_idx(c, i)
        return r

    def e_Slice(self, e, st, ctx):
        f = lambda x: NONE if x is None else self.rv(x, st, ctx)
        return mk_slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st, ctx):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    parts.append(('splat', self.rv(x.value, st, ctx)))
                else:
                    parts.append(('it', self.ev_keep(x, st, ctx)))
            return t('call', G('tuple'), (mk_list(parts),), (), 0)
        return t('tup', *[self.ev_keep(x, st, ctx) for x in e.elts])

    def e_List(self, e, st, ctx):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(('splat', self.rv(x.value, st, ctx)))
            else:
                parts.append(('it', self.ev_keep(x, st, ctx)))
        return self.alloc(st, mk_list(parts))

    def e_Set(self, e, st, ctx):
        return t('set', *sorted([self.rv(x, st, ctx) for x in e.elts], key=lambda y: y.uid))

    def e_Dict(self, e, st, ctx):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                dv = self.rv(v, st, ctx)
                if dv.op == 'dict':
                    items.extend(dv.args)
                else:
                    items.append((None, dv))
            else:
                items.append((self.rv(k, st, ctx), self.ev_keep(v, st, ctx)))
        return self.alloc(st, mk_dict(*items))

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_UnaryOp(self, e, st, ctx):
        v = self.rv(e.operand, st, ctx)
        if isinstance(e.op, ast.USub):
            return mk_neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return mk_not(truth_of(v))
        return mk_invert(v)

    def e_BinOp(self, e, st, ctx):
        a = self.rv(e.left, st, ctx)
        b = self.rv(e.right, st, ctx)
        op = type(e.op).__name__
        r = self.binop(op, a, b)
        if r.op == 'list':
            return self.alloc(st, r)
        return r

    def binop(self, op, a, b):
        if op == 'Add':
            return mk_add(a, b)
        if op == 'Sub':
            return mk_sub(a, b)
        if op == 'Mult':
            return mk_mul(a, b)
        if op == 'Div':
            return mk_div(a, b)
        if op == 'Pow':
            return mk_pow2(a, b)
        if op == 'Mod':
            if is_stry(a):
                return mk_fmt(a, b)
            return t('op', 'mod', a, b)
        if op == 'FloorDiv':
            na, nb = numval(a), numval(b)
            if na is not None and nb:
                return num(na // nb)
            return t('op', 'floordiv', a, b)
        if op == 'MatMult':
            return t('call', G('numpy.dot'), (a, b), (), 0)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.uid > b.uid:
                a, b = b, a
            return t('op', op, a, b)
        return t('op', op, a, b)

    def e_BoolOp(self, e, st, ctx):
        vals = []
        g = TRUE
        for i, x in enumerate(e.values):
            if g is TRUE or g is FALSE or not has_call(x):
                v = self.rv(x, st, ctx)
            else:
                sa = st.copy(mk_and(st.live, g))
                sb = st.copy(mk_and(st.live, mk_not(g)))
                v = self.rv(x, sa, ctx)
                self.merge(g, st, sa, sb)
            vals.append(v)
            if i + 1 < len(e.values):
                tv = truth_of(v)
                g = mk_and(g, tv if isinstance(e.op, ast.And) else mk_not(tv))
        if all(is_bool(v) for v in vals):
            return (mk_and if isinstance(e.op, ast.And) else mk_or)(*vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            if isinstance(e.op, ast.And):
                r = mk_phi(truth_of(v), r, v)
            else:
                r = mk_phi(truth_of(v), v, r)
        # used as a condition, a and b == truth(a) and truth(b)
        return t('boolval', (mk_and if isinstance(e.op, ast.And) else mk_or)(
            *[truth_of(v) for v in vals]), r)

    def e_Compare(self, e, st, ctx):
        out = []
        left = self.rv(e.left, st, ctx)
        for op, r in zip(e.ops, e.comparators):
            right = self.rv(r, st, ctx)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        return out[0] if len(out) == 1 else mk_and(*out)

    def compare(self, op, a, b):
        if op == 'Lt':
            return mk_lt(a, b)
        if op == 'Gt':
            return mk_lt(b, a)
        if op == 'LtE':
            return mk_le(a, b)
        if op == 'GtE':
            return mk_le(b, a)
        if op == 'Eq':
            return mk_eq(a, b)
        if op == 'NotEq':
            return mk_not(mk_eq(a, b))
        if op in ('Is', 'IsNot'):
            if b is NONE:
                r = mk_isnone(a)
            elif a is NONE:
                r = mk_isnone(b)
            elif b in (TRUE, FALSE) and is_bool(a):
                r = mk_eq(a, b)
            else:
                if a.uid > b.uid:
                    a, b = b, a
                r = TRUE if a is b else t('is', a, b)
            return r if op == 'Is' else mk_not(r)
        if op in ('In', 'NotIn'):
            r = None
            if b.op in ('tup', 'set') or (b.op == 'list' and all(p[0] == 'it' for p in b.args)):
                items = b.args if b.op != 'list' else [p[1] for p in b.args]
                r = mk_or(*[mk_eq(a, x) for x in items])
            elif b.op == 'mcall' and b.args[1] == 'keys' and not b.args[2]:
                r = t('in', a, b.args[0])
            else:
                r = t('in', a, b)
            return r if op == 'In' else mk_not(r)
        return self.unk('compare ' + op)

    def e_IfExp(self, e, st, ctx):
        c = self.cond(e.test, st, ctx)
        if c is TRUE:
            return self.ev(e.body, st, ctx)
        if c is FALSE:
            return self.ev(e.orelse, st, ctx)
        return self.ifexp(c, e, st, ctx)

    def ifexp(self, c, e, st, ctx, keep=False):
        def val(x, st):
            if keep and isinstance(x, (ast.Name, ast.Attribute, ast.IfExp)):
                v = self.ev_keep(x, st, ctx)
                return self.res(st, self.value(st, v)) if v.op == 'ref' else v
            return self.rv(x, st, ctx)
        if has_call(e.body) or has_call(e.orelse):
            sa = st.copy(mk_and(st.live, c))
            sb = st.copy(mk_and(st.live, mk_not(c)))
            a = val(e.body, sa)
            b = val(e.orelse, sb)
            self.merge(c, st, sa, sb)
            return mk_phi(c, a, b)
        return mk_phi(c, val(e.body, st), val(e.orelse, st))

    def e_JoinedStr(self, e, st, ctx):
        fmt, args = '', []
        for v in e.values:
            if isinstance(v, ast.Constant):
                fmt += str(v.value).replace('%', '%%')
            elif isinstance(v, ast.FormattedValue):
                sp = 's'
                if v.format_spec is not None and isinstance(v.format_spec, ast.JoinedStr) and \
                        all(isinstance(q, ast.Constant) for q in v.format_spec.values):
                    sp = ''.join(str(q.value) for q in v.format_spec.values)
                fmt += '%' + sp
                args.append(self.rv(v.value, st, ctx))
        if not args:
            return S(fmt.replace('%%', '%'))
        return mk_fmt(S(fmt), t('tup', *args))

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev_keep(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def e_Lambda(self, e, st, ctx):
        fresh.n += 1
        l = t('lam', fresh.n)
        self.lams[l] = (e, st.env, ctx)
        return l

    def e_Yield(self, e, st, ctx):
        c = ctx
        while c is not None and c.yref is None:
            c = c.parent
        v = NONE if e.value is None else self.ev_keep(e.value, st, ctx)
        if c is None:
            return self.unk('yield', e)
        st.mem[c.yref] = mk_list(parts_of(st.mem.get(c.yref, t('list'))) + (('it', v),))
        return NONE

    def e_YieldFrom(self, e, st, ctx):
        v = self.rv(e.value, st, ctx)
        c = ctx
        while c is not None and c.yref is None:
            c = c.parent
        if c is None:
            return self.unk('yield', e)
        st.mem[c.yref] = mk_list(parts_of(st.mem.get(c.yref, t('list'))) + (('splat', v),))
        return NONE

    # ---------------------------------------------------------- comprehensions
    def comp_parts(self, gens, fn, st, ctx):
        """parts produced by generators; fn(st2)->parts"""
        if not gens:
            return fn(st)
        g = gens[0]
        seq = self.literal_seq(g.iter, st, ctx)
        if seq is not None and len(seq) <= 8:
            out = ()
            for v in seq:
                s2 = State(dict(st.env), st.mem, TRUE, st.evts, st.eps)
                self.assign(g.target, v, s2, ctx)
                cs = [self.cond(c, s2, ctx) for c in g.ifs]
                p = self.comp_parts(gens[1:], fn, s2, ctx)
                c = mk_and(*cs)
                if c is FALSE:
                    continue
                out += p if c is TRUE else (('cond', c, p, ()),)
            return out
        k, d, e, gd = self.domain(g.iter, st, ctx)
        s2 = State(dict(st.env), st.mem, TRUE, st.evts, st.eps)
        self.assign(g.target, e, s2, ctx)
        cs = [gd] + [self.cond(c, s2, ctx) for c in g.ifs]
        p = self.comp_parts(gens[1:], fn, s2, ctx)
        p = tuple(self.res_part(s2, q) for q in p)
        c = mk_and(*cs)
        if c is FALSE:
            return ()
        if c is not TRUE:
            if c.op == 'not':
                p = (('cond', c.args[0], (), p),)
            else:
                p = (('cond', c, p, ()),)
        return (mk_forpart(k, d, p),)

    def res_part(self, st, q):
        return tuple(self.res(st, x) if isinstance(x, T) else
                     (tuple(self.res_part(st, y) for y in x) if isinstance(x, tuple) else x)
                     for x in q)

    def e_ListComp(self, e, st, ctx):
        p = self.comp_parts(e.generators,
                            lambda s2: (('it', self.res(s2, self.ev_keep(e.elt, s2, ctx))),), st, ctx)
        return self.alloc(st, mk_list(p))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, ctx):
        p = self.comp_parts(e.generators,
                            lambda s2: (('it', self.rv(e.elt, s2, ctx)),), st, ctx)
        return t('call', G('set'), (mk_list(p),), (), 0)

    def e_DictComp(self, e, st, ctx):
        p = self.comp_parts(e.generators, lambda s2: (
            ('it', t('tup', self.rv(e.key, s2, ctx), self.rv(e.value, s2, ctx))),), st, ctx)
        return t('call', G('dict'), (mk_list(p),), (), 0)

    # ------------------------------------------------------------------- calls
    def e_Call(self, e, st, ctx):
        if self.ignored_call(e, st, ctx):
            return t('ignored')
        return self.ev_call(e, st, ctx)

    def ev_call(self, e, st, ctx, stmt=False):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'c_offset' and len(e.args) == 2:
            return TT.mk_coff(self.ev_obj(e.args[0], st, ctx), self.rv(e.args[1], st, ctx))
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            return self.call_super(e, f, st, ctx, stmt)
        if isinstance(f, ast.Name) and f.id == 'map' and len(e.args) >= 2 and not e.keywords and \
                isinstance(e.args[0], (ast.Name, ast.Attribute, ast.Lambda)) and \
                not any(isinstance(a, ast.Starred) for a in e.args):
            nv = ['_map_%d_%d' % (getattr(e, 'lineno', 0), i) for i in range(len(e.args) - 1)]
            if len(nv) == 1:
                tg, it = ast.Name(nv[0], ast.Store()), e.args[1]
            else:
                tg = ast.Tuple([ast.Name(n, ast.Store()) for n in nv], ast.Store())
                it = ast.Call(ast.Name('zip', ast.Load()), e.args[1:], [])
            g = ast.GeneratorExp(ast.Call(e.args[0], [ast.Name(n, ast.Load()) for n in nv], []),
                                 [ast.comprehension(tg, it, [], 0)])
            ast.copy_location(g, e)
            ast.fix_missing_locations(g)
            return self.ev(g, st, ctx)
        args, kw, star = self.ev_args(e, st, ctx)
        if isinstance(f, ast.Name) and f.id == 'locals':
            return self.unk('locals()', e)
        if isinstance(f, ast.Attribute):
            recv = self.ev_obj(f.value, st, ctx)
            if recv.op != 'g':
                return self.call_method(e, f, recv, args, kw, star, st, ctx, stmt)
            # Class.method(self, ...)  or module function
            g = canon_g(recv.args[0] + '.' + f.attr)
            cl = self.prog.find_class(recv.args[0].split('.')[-1], ctx.module)
            if cl is not None and self.prog.lookup(cl, f.attr) is not None:
                fn = self.prog.lookup(cl, f.attr)
                return self.call_resolved(e, fn, None, args, kw, star, st, ctx, stmt, cls_explicit=cl)
            mm = self.prog.modules.get(recv.args[0])
            if mm is not None:
                fn = self.prog.func_in(mm, f.attr)
                if fn is not None:
                    return self.call_resolved(e, fn, None, args, kw, star, st, ctx, stmt)
                g = G(f.attr)
            return self.call_global(e, g, args, kw, star, st, ctx, stmt)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'getattr' and \
                len(f.args) == 2 and not f.keywords:
            nm = self.res(st, self.ev(f.args[1], st, ctx))
            if nm.op == 'str' and isinstance(nm.args[0], str) and nm.args[0].isidentifier():
                f2 = ast.copy_location(ast.Attribute(f.args[0], nm.args[0], ast.Load()), f)
                e2 = ast.copy_location(ast.Call(f2, e.args, e.keywords), e)
                return self.ev_call(e2, st, ctx, stmt)
        fv = self.ev(f, st, ctx)
        if fv.op == 'lam':
            return self.call_lam(fv, args, kw, star, st, ctx)
        if fv.op == 'attr' and isinstance(f, ast.Name) and isinstance(fv.args[1], str) and fv.args[0].op != 'g':
            # a bound method held in a variable
            f2 = ast.copy_location(ast.Attribute(f, fv.args[1], ast.Load()), f)
            return self.call_method(e, f2, fv.args[0], args, kw, star, st, ctx, stmt)
        if fv.op == 'g':
            return self.call_global(e, fv, args, kw, star, st, ctx, stmt)
        if fv.op == 'lcls' and not star:
            a = tuple(self.res(st, self.value(st, x)) for x in args)
            k = tuple(sorted((n, self.res(st, v)) for n, v in kw))
            return self.alloc(st, t('call', fv, a, k, 0))
        # calling a computed callable
        a = tuple(self.lamres(self.res(st, x), st, ctx) for x in args)
        k = tuple((n, self.res(st, v)) for n, v in kw)
        fv = self.res(st, fv)
        r = t('call', fv, a, k, self.ep_call(st, (fv,) + a))
        if stmt:
            self.event(st, r, a, None)
        return r

    def lamres(self, x, st, ctx):
        if not contains(x, lambda y: y.op == 'lam'):
            return x
        m = {}
        for y in list(walk(x)):
            if y.op == 'lam' and y in self.lams:
                m[y] = self.lam_term(y, st, ctx)
        return subst(x, m)

    def lam_term(self, l, st, ctx):
        node, env, c2 = self.lams[l]
        ps = self.argnames(node)
        vs = [fresh('k') for p in ps]
        if self.depth > self.MAXDEPTH:
            return self.unk('nested lambda', node)
        s2 = st.copy()
        s2.evts = []
        self.depth += 1
        try:
            r = self.lamres(self.res(s2, self.call_lam(l, vs, (), False, s2, ctx)), s2, ctx)
        finally:
            self.depth -= 1
        body = r
        if s2.evts:
            body = t('tup', r, *[x for ge in s2.evts for x in ge])
        for v in reversed(vs):
            b, (body,) = bind(v, body)
            body = t('lamv', b, body)
        return body

    def ev_args(self, e, st, ctx):
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.rv(a.value, st, ctx)
                if v.op == 'tup':
                    args.extend(v.args)
                elif v.op == 'list' and all(p[0] == 'it' for p in v.args):
                    args.extend(p[1] for p in v.args)
                else:
                    args.append(t('star', v))
                    star = True
            else:
                args.append(self.ev_keep(a, st, ctx))
        kw = []
        for k in e.keywords:
            if k.arg is None:
                v = self.rv(k.value, st, ctx)
                if v.op == 'dict' and all(kk is not None and kk.op == 'str' for kk, x in v.args):
                    kw.extend((kk.args[0], x) for kk, x in v.args)
                else:
                    kw.append(('**', v))
                    star = True
            else:
                kw.append((k.arg, self.ev_keep(k.value, st, ctx)))
        return args, tuple(kw), star

    def event(self, st, term, roots_terms, recv, name=None):
        rs = set()
        for x in roots_terms:
            rs |= self.roots(x)
        gl = name is not None and any(name.startswith(p) for p in GLOBAL_SETTERS)
        st.evts.append((st.live, term))
        st.eps.append((recv, frozenset(rs), gl))

    def call_global(self, e, fv, args, kw, star, st, ctx, stmt):
        name = fv.args[0]
        # repo function?
        fn = None
        if '.' not in name:
            fn = self.prog.find_func(name, ctx.module)
            if fn is None and name in self.prog.funcs and name not in ctx.module.classes:
                L = self.prog.funcs[name]
                if len(L) == 1 and name not in PURE_BUILTINS:
                    fn = L[0]
        if fn is not None:
            return self.call_resolved(e, fn, None, args, kw, star, st, ctx, stmt)
        r = self.builtin(e, name, args, kw, star, st, ctx)
        if r is not None:
            return r
        a = tuple(self.lamres(self.res(st, self.value(st, x)), st, ctx) for x in args)
        k = tuple(sorted((n, self.lamres(self.res(st, self.value(st, v)), st, ctx)) for n, v in kw))
        last = name.split('.')[-1]
        if last[:1].isupper() and '.' not in name:
            # constructor: positional/keyword forms coincide
            cl = self.prog.find_class(last, ctx.module)
            if cl is not None:
                init = self.prog.lookup(cl, '__init__')
                if init is not None:
                    a, k = self.normargs(init.node, a, k, 1)
            r = t('call', fv, a, k, 0)
            if stmt:
                return r
            r = self.alloc(st, r)
            self.link(st, r, list(args) + [v for n, v in kw])
            return r
        pure = name in PURE_BUILTINS or name.startswith(('numpy.', 'scipy.', 'math.', 'os.path')) or '.' not in name and not stmt
        ep = 0
        if not (name in PURE_BUILTINS or name.startswith(('numpy.', 'math.'))):
            ep = self.ep_call(st, a + tuple(v for n, v in k))
        if name not in PURE_BUILTINS and not name.startswith(('numpy.', 'scipy.', 'math.', 'os.path')):
            self.lend(st, last, list(args) + [v for n, v in kw])
        r = t('call', fv, a, k, ep)
        if stmt and not name.startswith(('numpy.random', 'math.')):
            self.event(st, r, a, None)
        elif not stmt and name not in PURE_BUILTINS and not name.startswith(('numpy.', 'scipy.', 'math.', 'os.path')):
            # a foreign routine handed an array made here fills it
            for x in list(args) + [v for n, v in kw]:
                c = st.mem.get(x) if x.op == 'ref' else None
                if c is not None and c.op == 'call' and c.args[0].op == 'g' and \
                        c.args[0].args[0].startswith('numpy.') and c.args[0].args[0].split('.')[-1] in ALLOC_NP:
                    self.event(st, r, a, None)
                    break
        if name.startswith('numpy.') and name.split('.')[-1] in ALLOC_NP:
            return self.alloc(st, r)
        return r

    def link(self, st, holder, vals):
        """the fresh object `holder` keeps references to the fresh objects in vals"""
        L = self.links.setdefault(holder, [])
        todo, seen = list(vals), set()
        while todo:
            x = todo.pop(0)
            for y in walk(x):
                if y.op == 'ref' and y not in seen and y is not holder:
                    seen.add(y)
                    c = st.mem.get(y)
                    if y not in L and not (c is not None and c.op in ('list', 'dict', 'tup', 'set')):
                        L.append(y)
                    if c is not None:
                        todo.append(c)
                    todo.extend(self.links.get(y, ()))

    def is_held(self, r):
        return any(r in L for L in self.links.values())

    def normargs(self, node, a, k, skip):
        """put keyword arguments in positional slots where the callee's
        signature says so; trailing defaults equal to the declared default are
        kept as written"""
        names = [x.arg for x in node.args.posonlyargs + node.args.args][skip:]
        a = unstar_args(node, a, k, skip)
        if any(x.op == 'star' for x in a):
            return a, k
        kd = dict(k)
        out = list(a)
        if len(out) > len(names):
            return a, k
        d = {}
        for n, v in zip(names, out):
            d[n] = v
        rest = []
        for n, v in k:
            if n in names and n not in d:
                d[n] = v
            else:
                rest.append((n, v))
        # drop arguments equal to a constant default
        defs = node.args.defaults
        if any(n == '**' for n, v in k):
            defs = []
        off = len(node.args.posonlyargs + node.args.args) - len(defs)
        for i, dn in enumerate(defs):
            nm = (node.args.posonlyargs + node.args.args)[off + i].arg
            if nm in d and isinstance(dn, ast.Constant):
                dv = self.e_Constant(dn, None, None)
                if d[nm] is dv:
                    del d[nm]
        return (), tuple(sorted(list(d.items()) + rest))

    def call_resolved(self, e, fn, recv, args, kw, star, st, ctx, stmt, cls_explicit=None, selfcls=None, virtual=False):
        """fn: Func resolved statically. recv: receiver object or None"""
        deco = fn.decorators()
        if self.inline(fn) and self.depth < self.MAXDEPTH and \
                not (virtual and self.overridden(selfcls, fn.name)) and \
                'property' not in deco and not (star and not self.star_ok(fn, args, kw)):
            a = list(args)
            if fn.cls is not None and recv is not None and 'staticmethod' not in deco:
                a = [recv] + a
            r = self.splice(fn, a, kw, st, ctx, selfcls)
            if r is not None:
                return r
        a = tuple(self.lamres(self.res(st, self.value(st, x)), st, ctx) for x in args)
        k = tuple(sorted((n, self.lamres(self.res(st, self.value(st, v)), st, ctx)) for n, v in kw))
        skip = 0
        if fn.cls is not None and cls_explicit is None and 'staticmethod' not in deco:
            skip = 1
        if fn.cls is not None and cls_explicit is not None and recv is None:
            if 'staticmethod' not in deco and 'classmethod' not in deco and a:
                # Class.method(obj, ...): same as super-style call
                o, a = a[0], a[1:]
                a, k = self.normargs(fn.node, a, k, 1)
                r = t('scall', fn.cls.name + '.' + fn.name, o, a, k, self.ep_call(st, (o,) + a))
                if stmt or self.impure(fn.name):
                    self.event(st, r, (o,) + a, args[0], fn.name)
                return r
            if 'staticmethod' not in deco:
                skip = 1
            a, k = self.normargs(fn.node, a, k, skip)
            return t('call', G(fn.cls.name + '.' + fn.name), a, k, 0)
        a, k = self.normargs(fn.node, a, k, skip)
        if recv is not None:
            rr = self.res(st, self.value(st, recv))
            if fn.name == 'isParamThawed' and not stmt:
                return mk_not(truth(t('mcall', rr, 'isParamFrozen', a, k, self.ep_call(st, (rr,) + a))))
            r = t('mcall', rr, fn.name, a, k, self.ep_call(st, (rr,) + a))
            self.lend(st, fn.name, [recv] + list(args) + [v for n, v in kw])
            if stmt or self.impure(fn.name):
                self.event(st, r, (rr,) + a, recv, fn.name)
            if fn.name == 'copy':
                return self.alloc(st, r)
            return r
        ep = self.ep_call(st, a + tuple(v for n, v in k))
        self.lend(st, fn.name, list(args) + [v for n, v in kw])
        r = t('call', G(fn.name), a, k, ep)
        outs = written_params(fn) if fn.module.path.endswith('.i') else ()
        if (stmt and not outs) or self.impure(fn.name):
            self.event(st, r, a, None, fn.name)
        names = [x.arg for x in fn.node.args.args]
        for nm, ae in zip(names, e.args if outs and isinstance(e, ast.Call) else ()):
            if nm in outs:
                self.out_param(ae, t('call', G('native_out'), (r, S(nm)), (), 0), st, ctx)
        return r

    def out_param(self, ae, val, st, ctx):
        """the callee stores into the array it was given"""
        if isinstance(ae, ast.IfExp):
            c = ae.test
            body = ae.body
        else:
            c, body = None, ae
        if isinstance(body, ast.Constant):
            return
        if isinstance(body, ast.Subscript):
            tg = ast.Subscript(body.value, body.slice, ast.Store())
        else:
            tg = ast.Subscript(body, ast.Slice(None, None, None), ast.Store())
        self.nout = getattr(self, 'nout', 0) + 1
        nm = '_out%d' % self.nout
        st.env[nm] = val
        s = ast.Assign([tg], ast.Name(nm, ast.Load()))
        if c is not None:
            s = ast.If(c, [s], [])
        ast.fix_missing_locations(ast.copy_location(s, ae))
        self.block([s], st, ctx)
        st.env.pop(nm, None)

    _ovr = {}

    def overridden(self, cls, name):
        """some subclass supplies its own version: a self-call cannot be spliced"""
        if cls is None:
            return False
        key = (self.prog, cls, name)
        r = self._ovr.get(key)
        if r is None:
            f0 = self.prog.lookup(cls, name)
            r = any(self.prog.lookup(k, name) is not f0 for k in self.prog.subclasses(cls))
            self._ovr[key] = r
        return r

    def star_ok(self, fn, args, kw):
        """*args/**kwargs forwarding to a callee that takes them as such"""
        return True

    def impure(self, name):
        return name.startswith(IMPURE_PREFIX) and not name.startswith('setup')

    def splice(self, fn, args, kw, st, ctx, selfcls=None):
        r = self.splice_(fn, args, kw, st, ctx, selfcls)
        if r is not None:
            self.spliced.add((fn.module.path, fn.qual))
        return r

    def splice_(self, fn, args, kw, st, ctx, selfcls=None):
        node = fn.node
        env = {}
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        rest = []
        i = 0
        args = unstar_args(node, args, kw, 0)
        for a in args:
            if a.op == 'star':
                if i < len(names) or not node.args.vararg:
                    return None
                rest.append(('splat', a.args[0]))
                continue
            if i < len(names):
                env[names[i]] = a
                i += 1
            else:
                rest.append(('it', a))
        kwrest = []
        allnames = names + [x.arg for x in node.args.kwonlyargs]
        for n, v in kw:
            if n in allnames and n not in env:
                env[n] = v
            else:
                kwrest.append((n, v))
        bound = set(env)
        ctx2 = Ctx(fn, fn.module, fn.cls, selfcls or (ctx.selfcls if fn.cls is not None else None), None)
        dst = State({}, {}, TRUE, [], [])
        defs = node.args.defaults
        off = len(names) - len(defs)
        for j, d in enumerate(defs):
            if names[off + j] not in env:
                env[names[off + j]] = self.ev(d, dst, ctx2)
        for n, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if n.arg not in env and d is not None:
                env[n.arg] = self.ev(d, dst, ctx2)
        if any(n not in env for n in allnames):
            return None
        if any(n == '**' for n, v in kw) and len(bound) < len(allnames):
            return None         # the forwarded keywords may bind them
        if rest and not node.args.vararg:
            return None
        if kwrest and not node.args.kwarg:
            return None
        if node.args.vararg:
            if len(rest) == 1 and rest[0][0] == 'splat':
                env[node.args.vararg.arg] = rest[0][1]
            elif all(p[0] == 'it' for p in rest):
                env[node.args.vararg.arg] = t('tup', *[p[1] for p in rest])
            else:
                env[node.args.vararg.arg] = mk_list(rest)
        if node.args.kwarg:
            if len(kwrest) == 1 and kwrest[0][0] == '**':
                env[node.args.kwarg.arg] = kwrest[0][1]
            else:
                env[node.args.kwarg.arg] = mk_dict(*[(None if n == '**' else S(n), v) for n, v in kwrest])
        self.inlined.append(fn.where)
        st.mem.update({k: v for k, v in dst.mem.items()})
        return self.run_body(node, env, st, ctx2, ctx)

    def run_body(self, node, env, st, ctx2, caller=None):
        self.depth += 1
        try:
            s2 = State(env, st.mem, TRUE, [], st.eps)
            s2.mem = dict(st.mem)
            s2.eps = list(st.eps)
            gen = is_generator(node)
            if gen:
                ctx2.yref = self.alloc(s2, t('list'))
            self.block(node.body, s2, ctx2)
        finally:
            self.depth -= 1
        exits = list(ctx2.exits)
        if s2.live is not FALSE:
            exits.append(Exit(s2.live, 'return', NONE, s2.env, s2.mem))
        for g, ev_ in s2.evts:
            st.evts.append((mk_and(st.live, g), ev_))
        st.eps = s2.eps
        rets = [e for e in exits if e.kind == 'return']
        for e in exits:
            if e.kind == 'raise':
                # propagates to the caller
                if caller is not None and caller.exits is not None:
                    caller.exits.append(Exit(mk_and(st.live, e.guard), 'raise', e.val, dict(st.env), dict(e.mem)))
                    st.live = mk_and(st.live, mk_not(e.guard))
                else:
                    self._pending_raise(st, e)
        if not rets:
            st.live = FALSE
            return UNDEF
        if len(rets) == 1:
            e = rets[0]
            st.mem = dict(e.mem)
            if gen:
                return ctx2.yref
            return e.val
        vals = []
        for e in rets:
            es = State(e.env, e.mem, e.guard, [], [])
            v = ctx2.yref if gen else e.val
            vals.append((e.guard, self.res(es, self.value(es, v) if v.op != 'ref' else v)))
        mem = {}
        keys = []
        for e in rets:
            for k in e.mem:
                if k not in mem:
                    keys.append(k)
                    mem[k] = None
        for k in keys:
            vs = []
            for e in rets:
                es = State(e.env, e.mem, e.guard, [], [])
                if k in e.mem:
                    v = e.mem[k]
                elif isinstance(k, T) and k.op == 'ref':
                    continue
                else:
                    v = self.defread(k)
                vs.append((e.guard, v))
            first = vs[0][1]
            if all(v is first for g, v in vs):
                mem[k] = first
            else:
                mem[k] = chain_phi([(g, self.res(State({}, e.mem, g, [], []), v)) for (g, v) in vs])
        st.mem = mem
        r = chain_phi(vals)
        if r.op == 'list':
            return self.alloc(st, r)
        return r

    def _cur_ctx(self, c):
        return c

    def _pending_raise(self, st, e):
        self.pending.append((mk_and(st.live, e.guard), e.val))
        st.live = mk_and(st.live, mk_not(e.guard))

    def call_lam(self, l, args, kw, star, st, ctx):
        node, env, c2 = self.lams[l]
        names = self.argnames(node)
        e2 = dict(env)
        e2.update(st.env if env is st.env else {})
        for n, a in zip(names, args):
            e2[n] = a
        for n, v in kw:
            e2[n] = v
        defs = node.args.defaults
        off = len(names) - len(defs)
        bound = set(names[:len(args)]) | {n for n, v in kw}
        for j, d in enumerate(defs):
            if names[off + j] not in bound:
                e2[names[off + j]] = self.ev(d, State(dict(env), st.mem, TRUE, [], []), c2)
        if self.depth > self.MAXDEPTH:
            return self.unk('recursion', node)
        cx = Ctx(c2.func, c2.module, c2.cls, c2.selfcls, None)
        if isinstance(node, ast.Lambda):
            s2 = State(e2, st.mem, st.live, st.evts, st.eps)
            self.depth += 1
            try:
                return self.ev_keep(node.body, s2, cx)
            finally:
                self.depth -= 1
        return self.run_body(node, e2, st, cx, ctx)

    def call_super(self, e, f, st, ctx, stmt):
        args, kw, star = self.ev_args(e, st, ctx)
        sup = f.value
        after = ctx.cls
        if sup.args and isinstance(sup.args[0], ast.Name):
            c = self.prog.find_class(sup.args[0].id, ctx.module)
            if c is not None:
                after = c
        slf = None
        if len(sup.args) >= 2:
            slf = self.ev_obj(sup.args[1], st, ctx)
        if slf is None:
            slf = st.env.get('self', t('p', 'self'))
        fn = None
        if ctx.selfcls is not None and after is not None:
            fn = self.prog.lookup_after(ctx.selfcls, after, f.attr)
        if fn is not None and self.inline(fn) and self.depth < self.MAXDEPTH:
            r = self.splice(fn, [slf] + list(args), kw, st, ctx)
            if r is not None:
                return r
        a = tuple(self.lamres(self.res(st, self.value(st, x)), st, ctx) for x in args)
        k = tuple(sorted((n, self.lamres(self.res(st, self.value(st, v)), st, ctx)) for n, v in kw))
        if fn is not None:
            a, k = self.normargs(fn.node, a, k, 1)
        nm = (fn.cls.name if fn is not None else 'object') + '.' + f.attr
        slf = self.res(st, slf)
        r = t('scall', nm, slf, a, k, self.ep_call(st, (slf,) + a))
        if stmt or self.impure(f.attr):
            self.event(st, r, (slf,) + a, slf, f.attr)
        if f.attr == 'copy':
            return self.alloc(st, r)
        return r

    def call_method(self, e, f, recv, args, kw, star, st, ctx, stmt):
        name = f.attr
        # statically resolvable self.method
        fn = None
        if name == '__getitem__' and len(args) == 1 and not kw and not star:
            return mk_idx(self.res(st, self.value(st, recv)), self.res(st, self.value(st, args[0])))
        scls = ctx.selfcls
        if scls is None and recv is t('p', 'self'):
            scls = self.topcls
        if recv is t('p', 'self') and scls is not None:
            fn = self.prog.lookup(scls, name)
        elif recv.op == 'p' and recv.args[0] == 'self':
            fn = None
        if fn is None and name in self.prog.methods and self.known is not None and \
                name not in self.known:
            # a method name the reference does not know: unique definition
            L = [x for x in self.prog.methods[name]]
            if len(L) == 1:
                fn = L[0]
        if fn is not None:
            return self.call_resolved(e, fn, recv, args, kw, star, st, ctx, stmt,
                                      selfcls=scls if recv is t('p', 'self') else fn.cls,
                                      virtual=True)
        r = self.builtin_method(name, recv, args, kw, star, st, ctx, stmt)
        if r is not None:
            return r
        a = tuple(self.lamres(self.res(st, self.value(st, x)), st, ctx) for x in args)
        k = tuple(sorted((n, self.lamres(self.res(st, self.value(st, v)), st, ctx)) for n, v in kw))
        if k:
            sig = self.common_sig(name)
            if sig is not None:
                a, k = self.normargs(sig, a, k, 1)
        elif a:
            sig = self.common_sig(name)
            if sig is not None:
                a, k = self.normargs(sig, a, k, 1)
        isfresh = recv.op == 'ref'
        rr = self.res(st, self.value(st, recv))
        if isfresh and (stmt or self.impure(name)):
            # mutates a fresh object in place
            c = self.content(st, recv)
            cc = rr
            r = t('mcall', cc, name, a, k, self.ep_call(st, a))
            if self.links.get(recv) or self.is_held(recv):
                # visible through the objects that share it
                st.evts.append((st.live, r))
            self.link(st, recv, list(args) + [v for n, v in kw])
            at = [kk for kk in st.mem if isinstance(kk, tuple) and kk[0] == '@' and kk[1] is recv]
            for kk in at:
                del st.mem[kk]
            st.mem[recv] = t('after', cc, r)
            if any(self.roots(x) for x in a):
                # the callee may also touch its arguments
                pass
            return r
        if name == 'isParamThawed' and not stmt:
            return mk_not(truth(t('mcall', rr, 'isParamFrozen', a, k,
                                  self.ep_call(st, (rr,) + a + tuple(v for n, v in k)))))
        self.lend(st, name, [recv] + list(args) + [v for n, v in kw])
        r = t('mcall', rr, name, a, k, self.ep_call(st, (rr,) + a + tuple(v for n, v in k)))
        if stmt or self.impure(name):
            self.event(st, r, (rr,) + a, recv, name)
        if name == 'copy':
            return self.alloc(st, r)
        if name in ALLOC_NP and rr.op == 'attr' and rr.args[1] in ('cp', 'np', 'xp'):
            return self.alloc(st, r)
        return r

    _csig = {}

    def common_sig(self, name):
        """a signature shared by every definition of a method name"""
        key = (id(self.prog), name)
        if key in self._csig:
            return self._csig[key]
        L = self.prog.methods.get(name, [])
        r = None
        if L:
            sigs = set()
            for f in L:
                sigs.add((tuple(x.arg for x in f.node.args.posonlyargs + f.node.args.args),
                          tuple(ast.dump(d) for d in f.node.args.defaults),
                          'staticmethod' in f.decorators()))
            if len(sigs) == 1 and not list(sigs)[0][2]:
                r = L[0].node
        self._csig[key] = r
        return r

    # ---------------------------------------------------------------- builtins
    def builtin(self, e, name, args, kw, star, st, ctx):
        R = lambda i: self.res(st, self.value(st, args[i]))
        n = len(args)
        base = name
        if name.startswith('numpy.') or name.startswith('math.'):
            base = name.split('.', 1)[1]
            base = RENAME.get(base, base)
        if star:
            return None
        kd = dict(kw)
        if not kw:
            if base == 'sqrt' and n == 1:
                return mk_pow2(R(0), num(Fraction(1, 2)))
            if base == 'square' and n == 1:
                return mk_pow(R(0), num(2))
            if base in ('abs', 'fabs', 'absolute') and n == 1:
                x = R(0)
                v = numval(x)
                if v is not None:
                    return num(abs(v))
                c = as_poly(x)
                if len(c) == 1 and list(c.values())[0] < 0:
                    x = mk_neg(x)
                elif x.op == 'poly' and x.args[0][1] < 0:
                    x = mk_neg(x)
                return t('call', G('abs'), (x,), (), 0)
            if name == 'sorted' and n == 1:
                return mk_sorted(R(0))
            if base in ('power',) and n == 2:
                return mk_pow2(R(0), R(1))
            if base in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and n == 2 and name.startswith('numpy.'):
                return {'add': mk_add, 'subtract': mk_sub, 'multiply': mk_mul,
                        'divide': mk_div, 'true_divide': mk_div}[base](R(0), R(1))
            if name in ('max', 'min') and n == 2 or (base in ('maximum', 'minimum') and n == 2):
                a, b = R(0), R(1)
                if not (is_listy(a) or is_listy(b)):
                    return (mk_max if base in ('max', 'maximum') else mk_min)(a, b)
            if name in ('max', 'min', 'numpy.max', 'numpy.min') and n == 1 and not kw:
                x = R(0)
                name = 'numpy.' + name[-3:]
                if x.op == 'list' and len(x.args) == 1 and x.args[0][0] == 'for':
                    b, d, parts = x.args[0][1].args
                    if len(parts) == 1 and parts[0][0] == 'it' and parts[0][1].op == 'poly':
                        pp = as_poly(parts[0][1])
                        if pp.get((), 0) != 0 and len(pp) > 1:
                            c0 = pp.pop(())
                            y = t('list', ('for', t('for', b, d, (('it', from_poly(pp)),))))
                            return mk_add(num(c0), t('call', G(name), (y,), (), 0))
                return t('call', G(name), (x,), (), 0)
            if name in ('max', 'min') and n > 2:
                r = R(0)
                for i in range(1, n):
                    r = (mk_max if name == 'max' else mk_min)(r, R(i))
                return r
            if base == 'clip' and n == 3:
                lo, hi = R(1), R(2)
                x = R(0)
                if lo is not NONE:
                    x = mk_max(x, lo)
                if hi is not NONE:
                    x = mk_min(x, hi)
                return x
            if base == 'dot' and n == 2:
                return t('call', G('numpy.dot'), (R(0), R(1)), (), 0)
            if base in ELEMENTWISE and name != base and n >= 1:
                return t('call', G(base), tuple(R(i) for i in range(n)), (), 0)
            if base == 'logical_not' and n == 1:
                return mk_invert(R(0))
            if base in ('logical_and', 'logical_or') and n == 2:
                return self.binop('BitAnd' if base == 'logical_and' else 'BitOr', R(0), R(1))
            if name == 'len' and n == 1:
                return self.mk_len(R(0))
            if name == 'float' and n == 1:
                x = R(0)
                if x.op == 'str':
                    return t('call', G('float'), (x,), (), 0)
                return x
            if name == 'int' and n == 1:
                x = R(0)
                if is_int_term(x):
                    return x
                return None
            if name == 'bool' and n == 1:
                return truth_of(R(0))
            if name == 'isinstance' and n == 2:
                return t('isinst', R(0), R(1))
            if name == 'hasattr' and n == 2:
                return t('hasattr', R(0), R(1))
            if name == 'getattr' and n == 2 and R(1).op == 'str':
                return self.value(st, self.getattr_obj(st, args[0], R(1).args[0]))
            if name == 'getattr' and n == 3 and R(1).op == 'str':
                return mk_phi(t('hasattr', R(0), R(1)),
                              self.value(st, self.getattr_obj(st, args[0], R(1).args[0])), R(2))
            if name == 'setattr' and n == 3 and R(1).op == 'str':
                self.put(st, ('@', args[0], R(1).args[0]), args[2])
                return NONE
            if name in ('list',) and n <= 1:
                if n == 0:
                    return self.alloc(st, t('list'))
                x = R(0)
                return self.alloc(st, mk_list((('splat', x),)))
            if name == 'tuple' and n == 1:
                x = R(0)
                if x.op == 'list' and all(p[0] == 'it' for p in x.args):
                    return t('tup', *[p[1] for p in x.args])
                if x.op == 'tup':
                    return x
                return t('call', G('tuple'), (x,), (), 0)
            if name == 'sum' and 1 <= n <= 2:
                x = R(0)
                r = self.sum_of(x)
                if n == 2:
                    r = mk_add(R(1), r)
                return r
            if name in ('any', 'all') and n == 1:
                x = R(0)
                if is_bool(x) or self.arrayish(x):
                    return truth_of(t('call', G('numpy.' + name), (x,), (), 0))
                r = self.any_of(x, neg=(name == 'all'))
                return mk_not(r) if name == 'all' else r
            if name in ('dict', 'set') and n == 0:
                return self.alloc(st, t('dict') if name == 'dict' else t('set'))
            if name in ('enumerate', 'zip', 'reversed', 'map', 'iter') and False:
                return None
            if name in ('zip',):
                k = fresh('k')
                vs = [R(i) for i in range(n)]
                ds, es, ok = [], [], True
                for v in vs:
                    d, el, g = self.dom_val(v, k, st)
                    ds.append(d)
                    es.append(el)
                    ok = ok and g is TRUE
                if ok and n:
                    return mk_list((mk_forpart(k, self.mk_zipdom(ds), (('it', t('tup', *es)),)),))
            if name == 'enumerate' and n == 1:
                k = fresh('k')
                d, el, g = self.dom_val(R(0), k, st)
                if g is TRUE:
                    return mk_list((mk_forpart(k, d, (('it', t('tup', k, el)),)),))
            if name == 'divmod' and n == 2:
                return t('tup', self.binop('FloorDiv', R(0), R(1)), self.binop('Mod', R(0), R(1)))
            if name == 'range' and n == 2 and R(0) is ZERO:
                return t('call', G('range'), (R(1),), (), 0)
            if name == 'slice':
                a = [R(i) for i in range(n)]
                if n == 1:
                    return mk_slice(NONE, a[0], NONE)
                if n == 2:
                    return mk_slice(a[0], a[1], NONE)
                return mk_slice(*a)
            if name == 'type' and n == 1:
                return mk_attr(R(0), '__class__', 0)
            if name == 'map' and n == 2 and args[0].op in ('g', 'lam'):
                k = fresh('k')
                d, el, g = self.dom_val(R(1), k, st)
                if g is TRUE:
                    if args[0].op == 'lam':
                        v = self.res(st, self.call_lam(args[0], [el], (), False, st, ctx))
                    else:
                        v = self.builtin(e, args[0].args[0], [el], (), False, st, ctx)
                        if v is None:
                            v = t('call', args[0], (el,), (), 0)
                        v = self.res(st, v)
                    return mk_list((mk_forpart(k, d, (('it', v),)),))
        if name == 'dict' and n == 1 and kw:
            x = R(0)
            base = x.args if x.op == 'dict' else ((None, x),)
            new = {S(k) for k, v in kw if k != '**'}
            base = tuple((k, v) for k, v in base if k not in new)
            return self.alloc(st, mk_dict(*(base + tuple((None if k == '**' else S(k), v) for k, v in kw))))
        if name == 'dict' and not n and kw:
            return self.alloc(st, mk_dict(*[(None if k_ == '**' else S(k_), v) for k_, v in kw]))
        return None

    def sum_of(self, x):
        if x.op == 'list':
            tot = ZERO
            for p in x.args:
                q = self.sum_part(p)
                if q is None:
                    return t('call', G('sum'), (x,), (), 0)
                tot = mk_add(tot, q)
            return tot
        if x.op == 'tup':
            tot = ZERO
            for y in x.args:
                tot = mk_add(tot, y)
            return tot
        k = fresh('k')
        return mk_sum(k, mk_idx(x, k), t('range', self.mk_len(x)))

    def sum_part(self, p):
        if p[0] == 'it':
            return p[1]
        if p[0] == 'splat':
            return self.sum_of(p[1])
        if p[0] == 'cond':
            a = b = ZERO
            for q in p[2]:
                s = self.sum_part(q)
                if s is None:
                    return None
                a = mk_add(a, s)
            for q in p[3]:
                s = self.sum_part(q)
                if s is None:
                    return None
                b = mk_add(b, s)
            return mk_phi(p[1], a, b)
        if p[0] == 'for':
            b, d, parts = p[1].args
            k = fresh('k')
            tot = ZERO
            for q in parts:
                q2 = _subst_arg(q, {b: k}, {})
                s = self.sum_part(q2)
                if s is None:
                    return None
                tot = mk_add(tot, s)
            return mk_sum(k, tot, d)
        return None

    def any_of(self, x, neg=False):
        def f(c):
            c = truth_of(c)
            return mk_not(c) if neg else c
        if x.op == 'list':
            out = []
            for p in x.args:
                q = self.any_part(p, f)
                if q is None:
                    return t('truth', t('call', G('any' if not neg else 'notall'), (x,), (), 0))
                out.append(q)
            return mk_or(*out)
        k = fresh('k')
        return mk_any(k, f(mk_idx(x, k)), t('range', self.mk_len(x)))

    def any_part(self, p, f):
        if p[0] == 'it':
            return f(p[1])
        if p[0] == 'splat':
            k = fresh('k')
            return mk_any(k, f(mk_idx(p[1], k)), t('range', self.mk_len(p[1])))
        if p[0] == 'cond':
            a = [self.any_part(q, f) for q in p[2]]
            b = [self.any_part(q, f) for q in p[3]]
            if None in a or None in b:
                return None
            return mk_or(mk_and(p[1], mk_or(*a)), mk_and(mk_not(p[1]), mk_or(*b)))
        if p[0] == 'for':
            b, d, parts = p[1].args
            k = fresh('k')
            out = []
            for q in parts:
                s = self.any_part(_subst_arg(q, {b: k}, {}), f)
                if s is None:
                    return None
                out.append(s)
            return mk_any(k, mk_or(*out), d)
        return None

    def builtin_method(self, name, recv, args, kw, star, st, ctx, stmt):
        R = lambda i: self.res(st, self.value(st, args[i]))
        n = len(args)
        if star:
            return None
        c = self.content(st, recv) if (recv.op == 'ref' or recv in st.mem) else recv
        listlike = c.op in ('list', 'rep') or (c.op == 'phi' and is_listy(c)) or \
            (c.op == 'carry')
        if name == 'append' and n == 1 and not kw and (stmt or True) and \
                not (recv.op == 'p' and recv.args[0] == 'self'):
            st.mem[recv] = mk_list(parts_of(c) + (('it', args[0]),))
            return NONE
        if name == 'extend' and n == 1 and not kw and not (recv.op == 'p' and recv.args[0] == 'self'):
            st.mem[recv] = mk_list(parts_of(c) + (('splat', R(0)),))
            return NONE
        if name == 'insert' and n == 2 and listlike and R(0) is ZERO:
            st.mem[recv] = mk_list((('it', args[1]),) + parts_of(c))
            return NONE
        if name == 'pop' and recv.op == 'ref' and c.op == 'list' and n == 0 and c.args and c.args[-1][0] == 'it':
            st.mem[recv] = t('list', *c.args[:-1])
            return c.args[-1][1]
        if name == 'sort' and n == 0 and not kw and stmt and recv.op == 'ref' and is_listy(self.res(st, c)):
            st.mem[recv] = mk_sorted(self.res(st, c))
            return NONE
        if name == 'update' and n == 1 and not kw and recv.op != 'p':
            v = R(0)
            if c.op == 'dict':
                st.mem[recv] = mk_dict(*(c.args + (v.args if v.op == 'dict' else ((None, v),))))
            else:
                st.mem[recv] = mk_dict(*(((None, c),) + (v.args if v.op == 'dict' else ((None, v),))))
            return NONE
        if name == 'update' and n == 0 and kw and recv.op != 'p':
            base = c.args if c.op == 'dict' else ((None, c),)
            new = {S(k) for k, v in kw if k != '**'}
            base = tuple((k, v) for k, v in base if k not in new)
            st.mem[recv] = mk_dict(*(base + tuple((None if k == '**' else S(k), v) for k, v in kw)))
            return NONE
        if name == 'get' and 1 <= n <= 2 and not kw:
            if n == 2 and R(1) is NONE:
                return t('mcall', self.res(st, c), 'get', (R(0),), (), self.ep_attr(st, recv))
        if name in REDUCE and not kw and name in ('sum', 'max', 'min', 'mean', 'prod', 'argmax', 'argmin', 'ravel', 'cumsum') and n == 0:
            x = self.res(st, c)
            return t('call', G('numpy.' + name), (x,), (), 0)
        if name in ('all', 'any') and not kw and n == 0:
            return t('call', G('numpy.' + name), (self.res(st, c),), (), 0)
        if name == 'dot' and n == 1 and not kw:
            return t('call', G('numpy.dot'), (self.res(st, c), R(0)), (), 0)
        if name == 'format' and is_stry(self.res(st, c)):
            return mk_fmt(self.res(st, c), t('tup', *[R(i) for i in range(n)]))
        if name == 'keys' and n == 0:
            return self.res(st, c) if False else None
        if name == '__getitem__' and n == 1:
            return mk_idx(self.res(st, c), R(0))
        if name == 'index' and n == 1:
            return t('mcall', self.res(st, c), 'index', (R(0),), (), 0)
        return None


# --------------------------------------------------------------- constructors

def unstar_args(node, a, k, skip):
    """f(*x) when f takes a fixed number of arguments"""
    if not a or a[-1].op != 'star' or any(x.op == 'star' for x in a[:-1]) or node.args.vararg:
        return a
    pos = (node.args.posonlyargs + node.args.args)[skip:]
    nodef = pos[:len(pos) - len(node.args.defaults)] if node.args.defaults else pos
    given = {n for n, v in k}
    if '**' in given:
        return a
    left = [x.arg for x in pos[len(a) - 1:] if x.arg not in given]
    if len(pos) != len(nodef) and any(x.arg in left for x in pos[len(nodef):]):
        return a
    return type(a)(list(a[:-1]) + [mk_idx(a[-1].args[0], num(j)) for j in range(len(left))])


def mk_dict(*items):
    out = []
    for k, v in items:
        if k is None and v.op == 'mcall' and v.args[1] == 'copy' and not v.args[2]:
            v = v.args[0]
        out.append((k, v))
    return t('dict', *out)


def lead_len(x):
    """n for len(y[:n])"""
    if x.op == 'poly' and len(x.args) == 1 and len(x.args[0][0]) == 1 and x.args[0][1] == 1 and x.args[0][0][0][1] == 1:
        x = x.args[0][0][0][0]
    if x.op == 'call' and x.args[0] is G('len') and len(x.args[1]) == 1:
        y = x.args[1][0]
        if y.op == 'idx' and y.args[1].op == 'slice' and y.args[1].args[0] is NONE and y.args[1].args[2] is NONE:
            return y.args[1].args[1]
    return None


def mk_sorted(x):
    while True:
        if x.op == 'call' and x.args[0].op == 'g' and x.args[0].args[0] in ('list', 'tuple', 'sorted') and \
                len(x.args[1]) == 1 and not x.args[2]:
            x = x.args[1][0]
        elif x.op == 'list' and len(x.args) == 1 and x.args[0][0] == 'splat':
            x = x.args[0][1]
        elif x.op == 'mcall' and x.args[1] == 'keys' and not x.args[2]:
            x = x.args[0]
        else:
            break
    return t('call', G('sorted'), (x,), (), 0)


def simple_field(prog, c, name):
    memo = prog.__dict__.setdefault('_simple', {})
    if (c, name) in memo:
        return memo[(c, name)]
    memo[(c, name)] = r = _simple_field(prog, c, name)
    return r


def sliceish(y):
    if y.op == 'idx' and y.args[0].op == 'call' and y.args[0].args[0].op == 'g':
        return y.args[0].args[0].args[0].rpartition('.')[2] == 'get_overlapping_region'
    return y.op == 'slice'


def sole_field(prog, c, name):
    memo = prog.__dict__.setdefault('_sole', {})
    if (c, name) not in memo:
        memo[(c, name)] = _sole_field(prog, c, name)
    return memo[(c, name)]


def _sole_field(prog, c, name):
    """the constructor argument whose only use is being stored as attribute `name`"""
    for k in prog.mro(c):
        if name in k.methods or any(m in k.methods for m in ('__setattr__', '__getattribute__', '__getattr__', '__new__')):
            return None
        if any(prog.find_class(b, k.module) is None and b != 'object' for b in k.basenames):
            return None
    f = prog.lookup(c, '__init__')
    if f is None or f.node.decorator_list:
        return None
    a = f.node.args
    args = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if not args:
        return None
    me, args = args[0], args[1:]
    for s in f.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == me and \
                s.targets[0].attr == name and isinstance(s.value, ast.Name) and s.value.id in args:
            break
    else:
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == s.value.id and n is not s.value:
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'exec', 'eval'):
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == me:
            h = prog.lookup(c, n.func.attr)
            if h is None or any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(h.node)):
                return None
    for k in prog.mro(c):
        h = k.methods.get('__init__')
        if h is not None:
            for n in ast.walk(h.node):
                if isinstance(n, ast.Attribute) and n.attr == name and n is not s.targets[0]:
                    return None
    return s.value.id


def _simple_field(prog, c, name):
    for k in prog.mro(c):
        if name in k.methods or any(m in k.methods for m in ('__setattr__', '__getattribute__', '__new__')):
            return None
        if any(prog.find_class(b, k.module) is None and b != 'object' for b in k.basenames):
            return None
    f = prog.lookup(c, '__init__')
    if f is None or f.node.decorator_list:
        return None
    a = f.node.args
    args = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if not args:
        return None
    me, args = args[0], args[1:]
    hit = None
    for s in f.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == me and \
                s.targets[0].attr == name and isinstance(s.value, ast.Name) and s.value.id in args:
            if hit is not None:
                return None
            hit = s
    if hit is None:
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == name and n is not hit.targets[0] and not isinstance(n.ctx, ast.Load):
            return None
        if isinstance(n, ast.Name) and n.id == hit.value.id and not isinstance(n.ctx, ast.Load):
            return None
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                return None
            if any(isinstance(x, ast.Name) and x.id in (me, 'super') for x in n.args + [k.value for k in n.keywords] + [n.func]):
                return None
    return hit.value.id


def mk_attr(base, name, ep):
    if base.op == 'obj':
        for n, v in base.args[1]:
            if n == name:
                return v
    if base.op == 'phi' and (base.args[1].op == 'obj' or base.args[2].op == 'obj'):
        return mk_phi(base.args[0], mk_attr(base.args[1], name, ep), mk_attr(base.args[2], name, ep))
    return t('attr', base, name, ep)


TT.REBUILD['attr'] = mk_attr


def inert(s):
    """a statement that cannot raise"""
    if isinstance(s, ast.If):
        return isinstance(s.test, ast.Constant) and all(inert(x) for x in s.body + s.orelse)
    if isinstance(s, ast.Assert):
        return isinstance(s.test, ast.Constant)
    return isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) or (
        isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and
        all(isinstance(x, ast.Name) for x in s.targets))


def keyed(body):
    """(D, k) when the statements can fail with KeyError only by D[k] or D.pop(k)"""
    if len(body) != 1 or not isinstance(body[0], (ast.Assign, ast.Return, ast.Expr)):
        return None, None
    v = body[0].value
    D = k = None
    if isinstance(v, ast.Subscript) and not isinstance(v.slice, (ast.Slice, ast.Tuple)):
        D, k = v.value, v.slice
    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'pop' and \
            len(v.args) == 1 and not v.keywords:
        D, k = v.func.value, v.args[0]
    if D is None or any(isinstance(n, (ast.Call, ast.Subscript, ast.NamedExpr)) for x in (D, k) for n in ast.walk(x)):
        return None, None
    if isinstance(body[0], ast.Assign) and not all(isinstance(x, ast.Name) for x in body[0].targets):
        return None, None
    return D, k


def has_call(e):
    return any(isinstance(n, (ast.Call, ast.NamedExpr)) for n in ast.walk(e))


def sticky_tree(u, c):
    """(guard, v) when the decision tree u has only the leaves c and one v"""
    vals = []
    n = [0]

    def go(x):
        n[0] += 1
        if n[0] > 64:
            return None
        if x is c:
            return FALSE
        if x.op == 'phi':
            a, b = go(x.args[1]), go(x.args[2])
            if a is None or b is None or occurs(x.args[0], c):
                return None
            return mk_or(mk_and(x.args[0], a), mk_and(mk_not(x.args[0]), b))
        if vals and vals[0] is not x:
            return None
        if not vals:
            vals.append(x)
        return TRUE
    g = go(u)
    if g is None or not vals:
        return None
    return g, vals[0]


def raw_len(v):
    if v.op == 'mcall' and v.args[1] in ('values', 'keys') and not v.args[2]:
        v = t('mcall', v.args[0], 'items', (), (), v.args[4])
    if v.op == 'mcall' and v.args[1] in SAMELEN:
        # P01: these lists have one entry per thawed parameter
        return t('mcall', v.args[0], 'numberOfParams', (), (), v.args[4])
    return t('call', G('len'), (v,), (), 0)


def dict_parts(u, c):
    """the (key, value) entries that u adds to the dictionary c"""
    if u is c:
        return ()
    if u.op == 'upd' and u.args[3] == '=':
        a = dict_parts(u.args[0], c)
        return None if a is None else a + (('it', t('tup', u.args[1], u.args[2])),)
    if u.op == 'phi':
        a, b = dict_parts(u.args[1], c), dict_parts(u.args[2], c)
        if a is None or b is None:
            return None
        return phi_parts(u.args[0], a, b)
    return None


def mk_forpart(k, dom, parts):
    if not parts:
        return ('splat', t('list'))
    b, (d, p) = bind(k, dom, tuple(parts))
    # [x[k] for k in range(len(x))] == list(x)
    if len(p) == 1 and p[0][0] == 'it' and p[0][1].op == 'idx' and p[0][1].args[1] is b:
        x = p[0][1].args[0]
        if not occurs(x, b) and d.op == 'range' and d.args[0] is raw_len(x):
            return ('splat', x)
    # one inner splat of a loop-invariant-free for: leave
    return ('for', t('for', b, d, p))


def mk_sum(k, term, dom):
    if term is ZERO:
        return ZERO
    if not occurs(term, k) and dom.op == 'range' and not contains(term, lambda y: y.op == 'at'):
        return mk_mul(term, dom.args[0])
    if term is TRUE:
        term = num(1)
    # pull out constant factors / split sums
    p = as_poly(term)
    if len(p) > 1:
        r = ZERO
        for m, c in p.items():
            r = mk_add(r, mk_sum(k, from_poly({m: c}), dom))
        return r
    (m, c), = p.items()
    inv = tuple((a, e) for a, e in m if not occurs(a, k))
    dep = tuple((a, e) for a, e in m if occurs(a, k))
    if dep or dom.op != 'range':
        core = from_poly({dep: Fraction(1)}) if dep else num(1)
        b, (tt, d) = bind(k, core, dom)
        return mk_mul(from_poly({inv: c}), t('sum', b, tt, d))
    b, (tt, d) = bind(k, term, dom)
    return t('sum', b, tt, d)


def mk_any(k, g, dom):
    if g is FALSE:
        return FALSE
    if g.op == 'or' and False:
        return mk_or(*[mk_any(k, x, dom) for x in g.args])
    b, (gg, d) = bind(k, g, dom)
    return t('any', b, gg, d)


def mk_first(k, xg, v, dom):
    """value v at the first iteration where xg holds"""
    v = assume(v, xg)
    if v in (TRUE, FALSE, NONE) or not contains(v, lambda y: y is k):
        return v
    b, (gg, vv, d) = bind(k, xg, v, dom)
    return t('first', b, gg, vv, d)


def close(op, k, *terms):
    b, rest = bind(k, *terms)
    return t(op, b, *rest)


def mk_invert(v):
    if v.op == 'op' and v.args[0] == 'invert':
        return v.args[1]
    if is_bool(v) and v.op in ('lt0', 'le0', 'eq', 'not'):
        return mk_not(v)
    return t('op', 'invert', v)


def mk_pow2(a, e):
    n = numval(e)
    if n is not None and n.denominator != 1:
        # sqrt(c*x): leave, but normalise x**(p/q) of a pow
        if n == Fraction(1, 2):
            v = numval(a)
            if v is not None and v >= 0:
                import math
                p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if p * p == v.numerator and q * q == v.denominator:
                    return num(Fraction(p, q))
    return mk_pow(a, e)


def mk_fmt(f, a):
    if f.op == 'str':
        import re
        s = re.sub(r'%[-#0 +]*\d*[idsr]', '%s', f.args[0])
        s = re.sub(r'\{\}', '%s', s)
        f = S(s)
    if a.op == 'tup' and len(a.args) == 1:
        a = a.args[0]
    return t('fmt', f, a)


def upd_at(old, i, v):
    """old with v stored at i; stores at distinct non-negative constant
    positions commute, so they are kept in increasing order"""
    if old.op == 'upd' and old.args[3] == '=':
        if old.args[1] is i:
            return t('upd', old.args[0], i, v, '=')
        n, m = numval(i), numval(old.args[1])
        if n is not None and m is not None and 0 <= n < m and \
                n.denominator == 1 == m.denominator:
            return t('upd', upd_at(old.args[0], i, v), old.args[1], old.args[2], '=')
    return t('upd', old, i, v, '=')


def truth_of(x):
    if x.op == 'boolval':
        return x.args[0]
    return truth(x)


TT.REBUILD['boolval'] = lambda c, v: t('boolval', c, v)


def _rb_sum(b, term, dom):
    if term is ZERO:
        return ZERO
    if not occurs(term, b) and dom.op == 'range':
        return mk_mul(term, dom.args[0])
    return t('sum', b, term, dom)


TT.REBUILD['sum'] = _rb_sum
TT.REBUILD['any'] = lambda b, g, d: FALSE if g is FALSE else t('any', b, g, d)


def canon_g(name):
    if name in ('numpy.pi', 'math.pi'):
        return G('pi')
    if name in ('numpy.inf', 'math.inf', 'numpy.Inf'):
        return G('inf')
    if name in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return G('nan')
    if name == 'numpy.newaxis':
        return NONE
    return G(name)


def leafvalue(mem, v):
    if v.op != 'ref' and v in mem:
        return mem[v]
    if v.op == 'phi':
        return mk_phi(v.args[0], leafvalue(mem, v.args[1]), leafvalue(mem, v.args[2]))
    return v


def key_has(kk, k):
    if isinstance(kk, tuple):
        return occurs(kk[1], k)
    return occurs(kk, k)


def chain_phi(vals):
    """vals: [(guard, value)] mutually exclusive, jointly covering"""
    if not vals:
        return UNDEF
    # order by construction
    r = vals[-1][1]
    for g, v in reversed(vals[:-1]):
        r = mk_phi(g, v, r)
    return r


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + '.' + e.attr
    return None


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def assigned_names_target(tg):
    out = set()
    if tg is None:
        return out
    for x in ast.walk(tg):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


def assigned_names(body):
    out = set()
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split('.')[0])
        st.extend(ast.iter_child_nodes(x))
    return out


def rebinds(body, nm):
    """does the loop body rebind nm other than by augmented assignment?"""
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            continue
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            st.append(x.value)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == nm:
            return True
        st.extend(ast.iter_child_nodes(x))
    return False


def simple_count(a):
    if isinstance(a, ast.Constant):
        return isinstance(a.value, int)
    if isinstance(a, ast.Call):
        return isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and isinstance(a.args[0], ast.Name)
    if isinstance(a, ast.BinOp):
        return simple_count(a.left) and simple_count(a.right)
    return isinstance(a, ast.Name)


def simple_test(a):
    return isinstance(a, ast.Compare) and len(a.ops) == 1 and simple_count(a.left) and simple_count(a.comparators[0])


def has_break(body):
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.For, ast.While)):
            st.extend(x.orelse)
            # returns inside nested loops are fine
            continue
        if isinstance(x, (ast.Break, ast.Continue)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False
