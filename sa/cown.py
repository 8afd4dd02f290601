"""Ownership typestate over the native routines.

A path-sensitive abstract interpretation of the clang syntax tree.  A state
holds, per variable, NULL / an owned object / a pointer into an object / an
integer constant / unknown, and per object its reference balance.  Calls of
helpers defined in the same file are followed.  Every path is explored up to
the finite set of distinct states; conditions on unknown values take both
branches.  Reports:

  leak            an object acquired on a path is still held when it returns
  over-release    more releases than acquisitions
  null release    Py_DECREF of a pointer that is NULL on that path
  null use        a NULL array handed to an accessor or dereferenced
  use after release
  untyped         an array converted without a required type
  lost write-back a successful return that dropped an unresolved write-back copy
"""
from native import inner, strip, qt, is_ptr, walk, callee, declid

ACQ_MEM = {'malloc', 'calloc', 'PyMem_Malloc'}
REL_MEM = {'free', 'PyMem_Free'}
NULL = ('null',)


class GiveUp(Exception):
    pass


class St(object):
    __slots__ = ('env', 'obj', 'lost')

    def __init__(self, env=None, obj=None, lost=frozenset()):
        self.env = env if env is not None else {}
        self.obj = obj if obj is not None else {}
        self.lost = lost

    def copy(self):
        return St(dict(self.env), dict(self.obj), self.lost)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.obj.items()), self.lost)

    def set(self, k, v):
        s = self.copy()
        if v is None:
            s.env.pop(k, None)
        else:
            s.env[k] = v
        return s

    def setobj(self, o, v):
        s = self.copy()
        s.obj[o] = v
        return s


def dedupe(L, cap=3000):
    out, seen = [], set()
    for s in L:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > cap:
        raise GiveUp('too many states')
    return out


def dedupe2(L, cap=3000):
    out, seen = [], set()
    for s, v in L:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    if len(out) > cap:
        raise GiveUp('too many states')
    return out


class Flow(object):
    """outgoing states of a statement"""
    __slots__ = ('next', 'brk', 'cont', 'ret', 'goto')

    def __init__(self):
        self.next, self.brk, self.cont, self.ret, self.goto = [], [], [], [], {}

    def absorb(self, o, loop=False):
        if not loop:
            self.brk += o.brk
            self.cont += o.cont
        self.ret += o.ret
        for k, v in o.goto.items():
            self.goto.setdefault(k, []).extend(v)


class Own(object):
    def __init__(self, cf):
        self.cf = cf
        self.found = {}      # (func, kind, what) -> text
        self.paths = 0
        self.sites = set()
        self.releases = set()
        self.undecided = []
        self.fsteps = 0

    # ------------------------------------------------------------ driver
    def roots(self):
        called = set()
        for n, f in self.cf.funcs.items():
            for x in walk(f):
                if x.get('kind') == 'CallExpr' and callee(x) in self.cf.funcs and callee(x) != n:
                    called.add(callee(x))
        return [n for n in self.cf.funcs if n in self.cf.inline or n not in called]

    def run(self):
        for n in self.roots():
            f = self.cf.funcs[n]
            self.stack = []
            self.fsteps = 0
            try:
                outs = self.call_body(f, [St()], (), None)
                for s, v in outs:
                    self.paths += 1
                    for o, (kind, cnt, nm, wb) in s.obj.items():
                        if cnt > 0 and not (v and v[0] == 'obj' and v[1] == o):
                            if any(k[0] == 'out' and x == ('obj', o) for k, x in s.env.items()):
                                continue
                            self.report(f, 'leak', nm, 'still held (balance %d) on a path that returns%s' % (
                                cnt, ' %d' % v[1] if v and v[0] == 'int' else ''))
                    if v == ('int', 0):
                        for nm in s.lost:
                            self.report(f, 'lost write-back', nm,
                                        'a successful return drops the copy without writing it back')
            except GiveUp as e:
                self.undecided.append('%s: %s: %s' % (self.cf.rel, n, e))
        return self.found

    def report(self, f, kind, what, text):
        self.found.setdefault((self.top or f['name'], kind, what), text)

    top = None

    # ------------------------------------------------------------ functions
    def call_body(self, f, states, frame, bind):
        if len(self.stack) > 4 or f['name'] in self.stack:
            raise GiveUp('recursion')
        self.stack.append(f['name'])
        old = self.top
        self.top = f['name']
        try:
            body = [c for c in inner(f) if c.get('kind') == 'CompoundStmt']
            if not body:
                raise GiveUp('no body for ' + f['name'])
            self.track(f)
            params = [c for c in inner(f) if c.get('kind') == 'ParmVarDecl']
            out = []
            for i, s in enumerate(states):
                s = s.copy()
                for j, p in enumerate(params):
                    v = bind[i][j] if bind is not None and j < len(bind[i]) else None
                    k = (frame, p['id'])
                    if v is None:
                        s.env.pop(k, None)
                        if bind is None and is_ptr(qt(p)) and qt(p).rstrip('* ').endswith('PyObject'):
                            pass
                    else:
                        s.env[k] = v
                out.append(s)
            fl = self.block(inner(body[0]), dedupe(out), frame)
            if fl.goto:
                raise GiveUp('goto ' + ', '.join(map(str, fl.goto)))
            res = fl.ret + [(s, None) for s in fl.next]
            # the frame is gone
            clean = []
            for s, v in res:
                s = s.copy()
                for k in [k for k in s.env if k[0] == frame]:
                    del s.env[k]
                clean.append((s, v))
            return dedupe2(clean)
        finally:
            self.stack.pop()
            self.top = old

    def track(self, f):
        """integer variables whose constants are followed: never stepped"""
        if '_own_int' in f:
            return
        bad = set()
        ints = set()
        asg = set()
        for n in walk(f):
            k = n.get('kind')
            if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&'):
                bad.add(declid(inner(n)[0]))
            elif k == 'CompoundAssignOperator':
                bad.add(declid(inner(n)[0]))
            elif k == 'BinaryOperator' and n['opcode'] == '=':
                asg.add(declid(inner(n)[0]))
            elif k == 'VarDecl' and qt(n) in ('int', 'char', 'long', 'unsigned char', 'short', '_Bool'):
                ints.add(n['id'])
        # only those returned or tested
        used = set()
        for n in walk(f):
            if n.get('kind') in ('ReturnStmt', 'IfStmt') and inner(n):
                for x in walk(inner(n)[0]):
                    if x.get('kind') == 'DeclRefExpr':
                        used.add(x['referencedDecl']['id'])
        for n in walk(f):
            if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'):
                for x in walk(n):
                    if x.get('kind') == 'BinaryOperator' and x['opcode'] == '=' and \
                            strip(inner(x)[1]).get('kind') not in ('IntegerLiteral', 'UnaryOperator'):
                        bad.add(declid(inner(x)[0]))
        f['_own_int'] = (ints & used) - bad
        f['_own_fix'] = {c['id'] for c in inner(f) if c.get('kind') == 'ParmVarDecl'} - asg - bad
        self.ints = getattr(self, 'ints', set()) | f['_own_int']
        self.fix = getattr(self, 'fix', set()) | f['_own_fix']

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, frame):
        fl = Flow()
        cur = states
        for i, s in enumerate(stmts):
            lab = s
            while lab.get('kind') == 'LabelStmt':
                cur = dedupe(cur + fl.goto.pop(lab['declId'], []))
                lab = inner(lab)[-1]
            if not cur:
                # code after a jump: reachable only through a label inside
                if not any(x.get('kind') == 'LabelStmt' for x in walk(s)):
                    continue
            f = self.stmt(lab, cur, frame)
            fl.absorb(f)
            cur = dedupe(f.next)
        fl.next = cur
        fl.ret = dedupe2(fl.ret)
        return fl

    def stmt(self, s, states, frame):
        fl = Flow()
        if not states:
            return fl
        self.fsteps += 1
        if self.fsteps > 60000:
            raise GiveUp('too many steps')
        k = s.get('kind')
        if k == 'CompoundStmt':
            return self.block(inner(s), states, frame)
        if k == 'LabelStmt':
            return self.block([s], states, frame)
        if k == 'IfStmt':
            I = inner(s)
            T, F = self.cond(I[0], states, frame)
            a = self.stmt(I[1], dedupe(T), frame)
            fl.absorb(a)
            fl.next += a.next
            if len(I) > 2:
                b = self.stmt(I[2], dedupe(F), frame)
                fl.absorb(b)
                fl.next += b.next
            else:
                fl.next += F
            fl.next = dedupe(fl.next)
            return fl
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return self.loop(s, states, frame)
        if k == 'ReturnStmt':
            I = inner(s)
            if I:
                fl.ret = self.ev(I[0], states, frame)
            else:
                fl.ret = [(x, None) for x in states]
            return fl
        if k == 'BreakStmt':
            fl.brk = states
            return fl
        if k == 'ContinueStmt':
            fl.cont = states
            return fl
        if k == 'GotoStmt':
            fl.goto[s['targetLabelDeclId']] = list(states)
            return fl
        if k == 'NullStmt':
            fl.next = states
            return fl
        if k == 'DeclStmt':
            cur = states
            for d in inner(s):
                if d.get('kind') != 'VarDecl':
                    continue
                key = (frame, d['id'])
                I = [c for c in inner(d) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Attr')]
                if I:
                    cur = dedupe([self.assign(x, key, d['id'], v, d.get('name')) for x, v in self.ev(I[-1], cur, frame, d.get('name'))])
                else:
                    cur = [x.set(key, None) for x in cur]
            fl.next = dedupe(cur)
            return fl
        if k in ('SwitchStmt',):
            raise GiveUp('switch')
        fl.next = dedupe([x for x, v in self.ev(s, states, frame)])
        return fl

    def loop(self, s, states, frame):
        fl = Flow()
        k = s['kind']
        I = inner(s)
        if k == 'ForStmt':
            init, _, test, inc, body = (I + [{}] * 5)[:5]
            if init.get('kind'):
                f = self.stmt(init, states, frame)
                states = f.next
        elif k == 'WhileStmt':
            init, test, inc, body = {}, I[0], {}, I[-1]
        else:
            init, test, inc, body = {}, I[1], {}, I[0]
        seen = {}
        work = states
        out = []
        first = k == 'DoStmt'
        rounds = 0
        while work:
            rounds += 1
            if rounds > 40:
                raise GiveUp('loop does not settle')
            if first:
                T = work
                first = False
            elif test.get('kind'):
                T, F = self.cond(test, work, frame)
                out += F
            else:
                T = work
            f = self.stmt(body, dedupe(T), frame)
            fl.absorb(f, True)
            out += f.brk
            nxt = dedupe(f.next + f.cont)
            if inc.get('kind'):
                nxt = [x for x, v in self.ev(inc, nxt, frame)]
            work = []
            for x in nxt:
                kk = x.key()
                if kk not in seen:
                    seen[kk] = x
                    work.append(x)
        fl.next = dedupe(out)
        return fl

    # ------------------------------------------------------------ conditions
    def cond(self, n, states, frame):
        n0, n = n, strip(n)
        k = n.get('kind')
        I = inner(n)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            T, F = self.cond(I[0], states, frame)
            return F, T
        if k == 'BinaryOperator' and n['opcode'] == '&&':
            T, F = self.cond(I[0], states, frame)
            T2, F2 = self.cond(I[1], dedupe(T), frame)
            return T2, F + F2
        if k == 'BinaryOperator' and n['opcode'] == '||':
            T, F = self.cond(I[0], states, frame)
            T2, F2 = self.cond(I[1], dedupe(F), frame)
            return T + T2, F2
        if k == 'CallExpr' and callee(n) == '__builtin_expect':
            return self.cond(I[1], states, frame)
        T, F = [], []
        fact = self.factkey(n, frame)
        for x, v in self.evc(n, states, frame):
            r = truth(v)
            if r is None and fact is not None:
                q = x.env.get(('fact', fact))
                if q is None:
                    T.append(x.set(('fact', fact), True))
                    F.append(x.set(('fact', fact), False))
                    continue
                r = q
            if r is not False:
                T.append(x)
            if r is not True:
                F.append(x)
        return T, F

    def factkey(self, n, frame):
        """a test of unchanging parameters only"""
        out = []
        for x in walk(n):
            k = x.get('kind')
            if k == 'DeclRefExpr':
                d = x['referencedDecl']
                if d['id'] not in self.fix and d.get('kind') != 'VarDecl':
                    return None
                if d.get('kind') == 'VarDecl' and not d.get('name', '').startswith('Py_'):
                    return None
                out.append(d['id'] if d.get('kind') != 'VarDecl' else d['name'])
            elif k in ('BinaryOperator', 'UnaryOperator'):
                if n is x and x.get('opcode') in ('==', '!='):
                    pass
                out.append(x.get('opcode'))
            elif k == 'IntegerLiteral':
                out.append(x.get('value'))
            elif k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
                pass
            else:
                return None
        return (frame,) + tuple(out) if any(out) else None

    def evc(self, n, states, frame):
        """value of a condition"""
        I = inner(n)
        if n.get('kind') == 'BinaryOperator' and n['opcode'] in ('==', '!=', '<', '>', '<=', '>='):
            out = []
            for x, a in self.ev(I[0], states, frame):
                for y, b in self.ev(I[1], [x], frame):
                    out.append((y, compare(n['opcode'], a, b)))
            return out
        return self.ev(n, states, frame)

    # ------------------------------------------------------------ expressions
    def lval(self, n, st, frame):
        """variable key a tracked lvalue names, or None"""
        n = strip(n)
        d = declid(n)
        if d is not None:
            return (frame, d)
        if n.get('kind') == 'UnaryOperator' and n['opcode'] == '*':
            p = strip(inner(n)[0])
            d = declid(p)
            if d is not None:
                v = st.env.get((frame, d))
                if v and v[0] == 'addr':
                    return v[1]
                if v is None:
                    return ('out', (frame, d))
            if p.get('kind') == 'UnaryOperator' and p['opcode'] == '&':
                return self.lval(inner(p)[0], st, frame)
        return None

    def nm(self, n):
        for x in walk(n):
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl'):
                return x['referencedDecl'].get('name')
        return '?'

    def ev(self, n, states, frame, name=None):
        if not states:
            return []
        isnullptr = n.get('castKind') == 'NullToPointer' or (
            n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'NullToPointer')
        n0, n = n, strip(n)
        k = n.get('kind')
        I = inner(n)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            if n['referencedDecl'].get('name') == 'Py_None':
                return [(s, ('glob', 'Py_None')) for s in states]
            return [(s, s.env.get((frame, d))) for s in states]
        if k == 'IntegerLiteral':
            v = int(n['value'])
            if v == 0 and (is_ptr(qt(n0)) or isnullptr):
                return [(s, NULL) for s in states]
            return [(s, ('int', v)) for s in states]
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '&':
                out = []
                for s in states:
                    kk = self.lval(I[0], s, frame)
                    out.append((s, ('addr', kk) if kk and strip(I[0]).get('kind') == 'DeclRefExpr' else None))
                if strip(I[0]).get('kind') != 'DeclRefExpr':
                    return [(s, None) for s, v in self.ev(I[0], states, frame)]
                return out
            if op == '*':
                out = []
                for s in states:
                    kk = self.lval(n, s, frame)
                    if kk is not None and (kk[0] == 'out' or kk in s.env or is_ptr(qt(n))):
                        if kk[0] == 'out' and not is_ptr(qt(n)):
                            for y, v in self.ev(I[0], [s], frame):
                                self.deref(y, v, I[0])
                                out.append((y, None))
                        else:
                            out.append((s, s.env.get(kk)))
                    else:
                        for y, v in self.ev(I[0], [s], frame):
                            self.deref(y, v, I[0])
                            out.append((y, None))
                return out
            if op == '!':
                T, F = self.cond(I[0], states, frame)
                return [(s, ('int', 0)) for s in T] + [(s, ('int', 1)) for s in F]
            if op == '-':
                return [(s, ('int', -v[1]) if v and v[0] == 'int' else None) for s, v in self.ev(I[0], states, frame)]
            if op in ('++', '--'):
                out = []
                for s, v in self.ev(I[0], states, frame):
                    kk = self.lval(I[0], s, frame)
                    if v and v[0] in ('data', 'obj'):
                        out.append((s, v))
                    else:
                        out.append((s.set(kk, None) if kk else s, None))
                return out
            return [(s, None) for s, v in self.ev(I[0], states, frame)]
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                out = []
                for s, v in self.ev(I[1], states, frame, self.nm(I[0])):
                    kk = self.lval(I[0], s, frame)
                    if kk is None:
                        for y, _ in self.ev(I[0], [s], frame):
                            out.append((self.escape(y, v), v))
                    else:
                        out.append((self.assign(s, kk, declid(I[0]), v, self.nm(I[0])), v))
                return out
            if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                T, F = self.cond(n, states, frame)
                return [(s, ('int', 1)) for s in dedupe(T)] + [(s, ('int', 0)) for s in dedupe(F)]
            out = []
            for s, a in self.ev(I[0], states, frame):
                for y, b in self.ev(I[1], [s], frame):
                    v = None
                    if op in ('+', '-'):
                        for z in (a, b):
                            if z and z[0] in ('data', 'obj'):
                                v = ('data', z[1])
                    if op == ',':
                        v = b
                    out.append((y, v))
            return out
        if k == 'CompoundAssignOperator':
            out = []
            for s, a in self.ev(I[1], states, frame):
                for y, b in self.ev(I[0], [s], frame):
                    kk = self.lval(I[0], y, frame)
                    if b and b[0] in ('data', 'obj'):
                        out.append((y.set(kk, ('data', b[1])) if kk else y, None))
                    else:
                        out.append((y.set(kk, None) if kk else y, None))
            return out
        if k == 'ConditionalOperator':
            T, F = self.cond(I[0], states, frame)
            return self.ev(I[1], dedupe(T), frame, name) + self.ev(I[2], dedupe(F), frame, name)
        if k == 'ArraySubscriptExpr':
            out = []
            for s, a in self.ev(I[0], states, frame):
                self.deref(s, a, I[0])
                for y, b in self.ev(I[1], [s], frame):
                    out.append((y, None))
            return out
        if k == 'MemberExpr':
            out = []
            for s, a in self.ev(I[0], states, frame):
                if n.get('isArrow'):
                    self.deref(s, a, I[0])
                out.append((s, None))
            return out
        if k == 'CallExpr':
            return self.call(n, states, frame, name)
        if k == 'UnaryExprOrTypeTraitExpr':
            return [(s, None) for s in states]
        cur = [(s, None) for s in states]
        for c in I:
            if isinstance(c, dict) and c.get('kind'):
                cur = self.ev(c, dedupe([s for s, v in cur]), frame)
        return [(s, None) for s, v in cur]

    def deref(self, s, v, n):
        if v == NULL:
            self.report({}, 'null use', self.nm(n), 'dereferenced while NULL')
        elif v and v[0] in ('data', 'obj'):
            o = s.obj.get(v[1])
            if o and o[1] <= 0:
                self.report({}, 'use after release', self.nm(n), 'memory of %s used after it was released' % o[2])

    def assign(self, s, key, did, v, name):
        if v and v[0] == 'int' and did not in self.ints:
            v = None
        return s.set(key, v)

    def escape(self, s, v):
        if v and v[0] == 'obj':
            o = s.obj.get(v[1])
            if o:
                s = s.copy()
                del s.obj[v[1]]
        return s

    # ------------------------------------------------------------ calls
    def call(self, n, states, frame, name):
        fn = callee(n)
        args = inner(n)[1:]
        if fn in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR', 'Py_INCREF', 'Py_XINCREF'):
            self.releases.add(n.get('id'))
            out = []
            for s, v in self.ev(args[0], states, frame):
                s = self.refop(fn, s, v, args[0], frame)
                out.append((s, None))
            return out
        if fn in REL_MEM:
            self.releases.add(n.get('id'))
            out = []
            for s, v in self.ev(args[0], states, frame):
                if v and v[0] == 'obj':
                    kind, c, nm, wb = s.obj.get(v[1], (None, 1, '?', None))
                    if c <= 0:
                        self.report({}, 'over-release', nm, 'freed twice')
                    if v[1] in s.obj:
                        s = s.setobj(v[1], (kind, c - 1, nm, wb))
                elif v and v[0] == 'data':
                    self.report({}, 'over-release', self.nm(args[0]), 'frees a pointer into the middle of a buffer')
                out.append((s, None))
            return out
        if fn in ACQ_MEM or fn in ('PyArray_DescrFromType', 'PyArray_DescrNewFromType'):
            self.sites.add(n.get('id'))
            cur = self.evargs(args, states, frame)
            out = []
            for s, vs in cur:
                o = (frame, n.get('id'))
                kind = 'mem' if fn in ACQ_MEM else 'py'
                s = self.fresh(s, o, kind, name or '?', None)
                out.append((s, ('obj', o)))
            return out
        if fn in ('PyArray_FromAny', 'PyArray_FROMANY', 'PyArray_FromObject'):
            self.sites.add(n.get('id'))
            out = []
            for s, vs in self.evargs(args, states, frame):
                if fn == 'PyArray_FromAny' and len(vs) > 4:
                    d = vs[1]
                    if d == NULL:
                        self.report({}, 'untyped', name or '?', 'array converted with no element type required')
                    elif d and d[0] == 'obj' and d[1] in s.obj:
                        kind, c, nm, wb = s.obj[d[1]]
                        if c <= 0:
                            self.report({}, 'over-release', nm, 'conversion takes a reference that is not held')
                        s = s.setobj(d[1], (kind, c - 1, nm, wb))
                o = (frame, n.get('id'))
                wb = self.writeback(args[4], frame) if len(args) > 4 else None
                out.append((self.fresh(s, o, 'py', name or '?', wb), ('obj', o)))
                out.append((s, NULL))
            return out
        if fn == 'PyArray_ResolveWritebackIfCopy':
            out = []
            for s, v in self.ev(args[0], states, frame):
                self.need(s, v, args[0])
                if v and v[0] == 'obj' and v[1] in s.obj:
                    kind, c, nm, wb = s.obj[v[1]]
                    s = s.setobj(v[1], (kind, c, nm, None))
                out.append((s, ('int', 0)))
                out.append((s, ('int', -1)))
            return out
        if fn in self.cf.funcs:
            f = self.cf.funcs[fn]
            cur = self.evargs(args, states, frame)
            out = []
            fr = frame + (n.get('id'),)
            for s, vs in cur:
                out += self.call_body(f, [s], fr, [vs])
            return dedupe2(out)
        if fn == 'native_assert':
            T, F = self.cond(args[0], states, frame)
            return [(s, None) for s in T]
        out = []
        for s, vs in self.evargs(args, states, frame):
            for v, a in zip(vs, args):
                if fn and fn.startswith('PyArray_'):
                    self.need(s, v, a)
                if v and v[0] == 'addr':
                    s = s.set(v[1], None)
            r = None
            if fn in ('PyArray_DATA', 'PyArray_BYTES', 'PyArray_GETPTR1', 'PyArray_GETPTR2') and vs and vs[0] and vs[0][0] == 'obj':
                r = ('data', vs[0][1])
            out.append((s, r))
        return out

    def need(self, s, v, a):
        if v == NULL:
            self.report({}, 'null use', self.nm(a), 'array used although its conversion failed on that path')
        elif v and v[0] == 'obj':
            o = s.obj.get(v[1])
            if o and o[1] <= 0:
                self.report({}, 'use after release', self.nm(a), 'array used after it was released')

    def writeback(self, n, frame):
        for x in walk(n):
            if x.get('kind') == 'DeclRefExpr':
                d = x['referencedDecl']
                if 'WRITEBACK' in d.get('name', ''):
                    return True
                if d.get('kind') == 'VarDecl':
                    f = self.cf.funcs.get(self.top)
                    for y in walk(f):
                        if y.get('kind') == 'VarDecl' and y.get('id') == d['id'] or \
                                y.get('kind') == 'BinaryOperator' and y.get('opcode') == '=' and declid(inner(y)[0]) == d['id']:
                            for z in walk(y):
                                if z.get('kind') == 'DeclRefExpr' and 'WRITEBACK' in z['referencedDecl'].get('name', ''):
                                    return True
        return None

    def fresh(self, s, o, kind, name, wb):
        if o in s.obj and s.obj[o][1] > 0:
            self.report({}, 'leak', name, 'acquired again before it was released')
        return s.setobj(o, (kind, 1, name, wb))

    def evargs(self, args, states, frame):
        cur = [(s, ()) for s in states]
        for a in args:
            nxt = []
            for s, vs in cur:
                for y, v in self.ev(a, [s], frame):
                    nxt.append((y, vs + (v,)))
            cur = dedupe2(nxt)
        return cur

    def refop(self, fn, s, v, a, frame):
        if v == NULL:
            if fn in ('Py_DECREF', 'Py_INCREF'):
                self.report({}, 'null release', self.nm(a), '%s of a pointer that is NULL on that path' % fn)
            return s
        if v and v[0] == 'obj' and v[1] in s.obj:
            kind, c, nm, wb = s.obj[v[1]]
            if fn in ('Py_INCREF', 'Py_XINCREF'):
                if c <= 0:
                    self.report({}, 'use after release', self.nm(a), 'reference taken on a released object')
                s = s.setobj(v[1], (kind, c + 1, nm, wb))
            else:
                if c <= 0:
                    self.report({}, 'over-release', nm, 'released more often than it was acquired')
                    c = 1
                s = s.setobj(v[1], (kind, c - 1, nm, wb))
                if c - 1 == 0 and wb:
                    s.lost = s.lost | {nm}
        if fn == 'Py_CLEAR':
            kk = self.lval(a, s, frame)
            if kk:
                s = s.set(kk, NULL)
        return s


def truth(v):
    if v is None:
        return None
    if v == NULL:
        return False
    if v[0] == 'int':
        return v[1] != 0
    return True


def compare(op, a, b):
    if a is None or b is None:
        return None
    if a == ('int', 0) and b[0] in ('obj', 'data', 'null', 'glob', 'addr'):
        a = NULL
    if b == ('int', 0) and a[0] in ('obj', 'data', 'null', 'glob', 'addr'):
        b = NULL
    if a[0] == b[0] == 'int':
        x, y = a[1], b[1]
        r = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return ('int', int(r))
    if op in ('==', '!='):
        if a == NULL and b == NULL:
            return ('int', int(op == '=='))
        if NULL in (a, b):
            o = a if b == NULL else b
            if o[0] in ('obj', 'data', 'glob', 'addr'):
                return ('int', int(op == '!='))
        if a[0] == b[0] and a[0] in ('obj', 'glob'):
            return ('int', int((a == b) == (op == '==')))
    return None


if __name__ == '__main__':
    import sys
    import native
    sys.setrecursionlimit(10000)
    for rel in native.FILES:
        cf = native.parse(sys.argv[1] if len(sys.argv) > 1 else '/repo', rel)
        o = Own(cf)
        for k, v in sorted(o.run().items()):
            print(rel, k, v)
        print(rel, 'roots', len(o.roots()), 'paths', o.paths, 'sites', len(o.sites), 'releases', len(o.releases), o.undecided)
