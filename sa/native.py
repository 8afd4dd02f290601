"""Native sources (SWIG .i files with their C blocks) as pseudo-modules.

The C text of the `%{ %}` and `%inline %{ %}` blocks is handed to clang with
stand-in headers, and every function body of the resulting syntax tree is
rewritten into an equivalent Python syntax tree (pointer arithmetic becomes
indexing from a root array, address-taken variables become one-element cells,
`goto` to a clean-up label becomes the clean-up code, active asserts become
raising checks).  The value-graph comparison then treats it like any other
function.  Nothing is compiled or run.  Memory discipline (references, malloc)
is not part of this translation: `cown.py` decides it from the same tree."""
import json
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
STUB = os.path.join(HERE, 'cstub')
FILES = ('tractor/mix.i', 'tractor/mp_fourier.i', 'tractor/emfit.i')
CLANG = ('clang-18', 'clang')


class Unsupported(Exception):
    pass


# ------------------------------------------------------------ extraction
def blocks(text):
    """[(kind, code)] of the C blocks of a SWIG interface file."""
    out = []
    for m in re.finditer(r'%(\w*)\s*%?\{(.*?)%\}', text, re.S):
        kind = m.group(1)
        if not m.group(0).startswith(('%{', '%inline', '%header', '%wrapper', '%runtime')):
            continue
        out.append((kind or 'header', m.group(2)))
    return out


def strip_c(t):
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)


def applies(text):
    """[(typemap signature, [argument signature])] of the %apply directives."""
    out = []
    t = re.sub(r'%(inline|header)?\s*%?\{.*?%\}', ' ', text, flags=re.S)
    t = strip_c(t)
    for m in re.finditer(r'%apply\s*(\([^)]*\)|[^{]*?)\s*\{(.*?)\}', t, re.S):
        lhs = norm_group(m.group(1))
        rhs = m.group(2)
        groups = re.findall(r'\([^)]*\)', rhs)
        if not groups:
            groups = rhs.split(',')
        out.append((lhs, [norm_group(g) for g in groups]))
    return out


def norm_group(g):
    g = g.strip().strip('()')
    out = []
    for a in g.split(','):
        a = re.sub(r'\b(restrict|const)\b', ' ', a)
        a = re.sub(r'\s+', ' ', a).strip()
        m = re.match(r'(.*?)(\w+)$', a)
        if m:
            out.append((m.group(1).replace(' ', ''), m.group(2)))
    return tuple(out)


class CFile(object):
    def __init__(self, rel):
        self.rel = rel
        self.funcs = {}        # name -> clang node
        self.inline = set()    # exported names
        self.protos = {}
        self.text = ''
        self.src = ''
        self.errors = []
        self.applies = []
        self.digest_text = ''


def extract(root, rel):
    cf = CFile(rel)
    with open(os.path.join(root, rel), encoding='utf-8', errors='replace') as f:
        text = f.read()
    cf.text = text
    cf.applies = applies(text)
    parts = []
    for kind, code in blocks(text):
        parts.append((kind, code))
    src = ['#include "Python.h"\n#include "math.h"\n']
    for kind, code in parts:
        src.append('\n/*@@BLOCK %s@@*/\nint native_block_%s_%d;\n' % (kind, kind, len(src)))
        src.append(code)
    cf.src = ''.join(src)
    return cf


def parse(root, rel):
    cf = extract(root, rel)
    d = os.path.dirname(os.path.join(root, rel))
    inc = []
    for m in re.finditer(r'#include\s+"(\w+\.c)"', cf.src):
        p = os.path.join(d, m.group(1))
        if os.path.exists(p):
            with open(p, errors='replace') as f:
                inc.append(f.read())
    cf.digest_text = cf.text + ''.join(inc)
    with tempfile.TemporaryDirectory() as td:
        cpath = os.path.join(td, 'native.c')
        with open(cpath, 'w') as f:
            f.write(cf.src)
        cmd = [which(), '-std=gnu99', '-fsyntax-only', '-nostdinc', '-nostdlibinc', '-fno-builtin',
               '-w', '-I', STUB, '-I', d, '-Xclang', '-ast-dump=json', cpath]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        cf.errors.append(r.stderr.decode(errors='replace')[:2000])
    try:
        tree = json.loads(r.stdout.decode(errors='replace'))
    except ValueError as e:
        cf.errors.append(str(e))
        return cf
    kind = 'header'
    for n in tree.get('inner', []):
        if n.get('kind') == 'VarDecl' and n.get('name', '').startswith('native_block_'):
            kind = n['name'].split('_')[2]
        if n.get('kind') == 'FunctionDecl':
            if kind == 'inline':
                cf.inline.add(n['name'])
            cf.protos.setdefault(n['name'], n)     # the declaration SWIG sees first
            if any(k.get('kind') == 'CompoundStmt' for k in n.get('inner', [])):
                cf.funcs[n['name']] = n
    return cf


_which = []


def which():
    if not _which:
        for c in CLANG:
            for d in os.environ.get('PATH', '').split(':') + ['/usr/bin', '/usr/lib/llvm-18/bin']:
                if os.path.exists(os.path.join(d, c)):
                    _which.append(os.path.join(d, c))
                    return _which[0]
        _which.append('clang')
    return _which[0]


# ------------------------------------------------------------ helpers
def inner(n):
    return n.get('inner', [])


def qt(n):
    t = n.get('type', {})
    return (t.get('desugaredQualType') or t.get('qualType') or '').replace('const ', '').replace('restrict', '').strip()


def is_ptr(t):
    return t.endswith('*') or t.endswith(']') or '(*)' in t


def is_arr(t):
    return t.endswith(']')


FLOATS = ('float', 'double', 'long double')


def is_flt(t):
    return t in FLOATS


def strip(n):
    """Without parentheses and value-preserving casts."""
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr'):
        ck = n.get('castKind')
        if ck in ('FloatingCast', 'FloatingToIntegral', 'IntegralToFloating'):
            return n
        n = inner(n)[0] if n.get('kind') != 'CStyleCastExpr' else inner(n)[-1]
    return n


def declid(n):
    n = strip(n)
    if n.get('kind') == 'DeclRefExpr':
        return n['referencedDecl']['id']
    return None


def walk(n):
    yield n
    for k in inner(n):
        if isinstance(k, dict):
            yield from walk(k)


def callee(n):
    f = strip(inner(n)[0])
    if f.get('kind') == 'DeclRefExpr':
        return f['referencedDecl'].get('name')
    return None


ASSIGN = ('BinaryOperator', 'CompoundAssignOperator')
DROP = {'printf', 'fprintf', 'fflush', 'PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory',
        'Py_INCREF', 'Py_XINCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_CLEAR', 'free', 'PyMem_Free'}
MATH = {'exp': 'exp', 'expf': 'exp', 'log': 'log', 'logf': 'log', 'sqrt': 'sqrt', 'sqrtf': 'sqrt',
        'sin': 'sin', 'sinf': 'sin', 'cos': 'cos', 'cosf': 'cos', 'fabs': 'abs', 'fabsf': 'abs', 'abs': 'abs',
        'floor': 'floor', 'floorf': 'floor', 'ceil': 'ceil', 'ceilf': 'ceil', 'round': 'cround', 'roundf': 'cround',
        'rint': 'rint', 'hypot': 'hypot', 'atan2': 'arctan2', 'atan': 'arctan', 'acos': 'arccos', 'asin': 'arcsin',
        'isfinite': 'isfinite', 'isnan': 'isnan', 'isinf': 'isinf', 'fmod': 'fmod', 'log10': 'log10', 'tan': 'tan',
        'trunc': 'trunc', 'exp2': 'exp2'}
F32 = {'expf', 'logf', 'sqrtf', 'sinf', 'cosf'}
PYKW = {'None', 'True', 'False', 'and', 'or', 'not', 'is', 'in', 'if', 'else', 'for', 'while', 'def', 'class', 'del',
        'from', 'import', 'with', 'as', 'try', 'except', 'finally', 'raise', 'return', 'lambda', 'pass', 'global',
        'nonlocal', 'yield', 'assert', 'await', 'async', 'elif', 'break', 'continue', 'np', 'max', 'min', 'int',
        'sum', 'abs', 'range', 'len', 'pow', 'filter', 'map', 'vars', 'dir', 'iter', 'next', 'id', 'type', 'round'}


class Trans(object):
    def __init__(self, cf, node):
        self.cf = cf
        self.node = node
        self.names = {}       # decl id -> python name
        self.used = set()
        self.types = {}
        self.cells = set()    # address-taken decl ids
        self.plain = set()    # pointers that are just another name of a base array
        self.params = []
        self.tmp = 0
        self.loopinc = []
        self.prepass()

    # ---------------------------------------------------- analysis
    def name(self, did, base):
        if did not in self.names:
            b = base
            if b in PYKW:
                b += '_'
            n = b
            i = 1
            while n in self.used or n in self.cf.funcs or n in DROP:
                i += 1
                n = '%s_%d' % (b, i)
            self.used.add(n)
            self.names[did] = n
        return self.names[did]

    def prepass(self):
        for k in inner(self.node):
            if k.get('kind') == 'ParmVarDecl':
                self.params.append(k)
                self.types[k['id']] = qt(k)
                self.name(k['id'], k.get('name', 'arg'))
            elif k.get('kind') == 'CompoundStmt':
                self.body = k
        assigns = {}
        incs = set()
        refs = {}
        for n in walk(self.body):
            kd = n.get('kind')
            if kd == 'VarDecl':
                self.types[n['id']] = qt(n)
                self.name(n['id'], n.get('name', 'v'))
                if inner(n) and n.get('init'):
                    assigns.setdefault(n['id'], []).append(inner(n)[-1])
            elif kd == 'BinaryOperator' and n['opcode'] == '=':
                d = declid(inner(n)[0])
                if d:
                    assigns.setdefault(d, []).append(inner(n)[1])
            elif kd == 'CompoundAssignOperator':
                d = declid(inner(n)[0])
                if d:
                    incs.add(d)
            elif kd == 'UnaryOperator' and n['opcode'] in ('++', '--'):
                d = declid(inner(n)[0])
                if d:
                    incs.add(d)
            elif kd == 'UnaryOperator' and n['opcode'] == '&':
                s = strip(inner(n)[0])
                d = declid(s)
                if d and not is_arr(self.types.get(d, '')):
                    self.cells.add(d)
            elif kd == 'DeclRefExpr':
                refs.setdefault(n['referencedDecl']['id'], 0)
                refs[n['referencedDecl']['id']] += 1
        self.assigns = assigns
        self.incs = incs
        self.find_roots()
        self.labels = {}
        self.top = inner(self.body)
        for i, s in enumerate(self.top):
            if s.get('kind') == 'LabelStmt':
                self.labels[s.get('declId')] = i

    def isparam(self, d):
        return any(p['id'] == d for p in self.params)

    def base(self, d):
        """The variable denotes one array (or NULL) for its whole life."""
        t = self.types.get(d, '')
        if is_arr(t):
            return True
        if not is_ptr(t) or d in self.cells or d in self.incs:
            return False
        a = self.assigns.get(d, [])
        if self.isparam(d):
            return not a
        nn = [x for x in a if not self.isnull(x)]
        return len(nn) == 1 and strip(nn[0]).get('kind') == 'CallExpr'

    def isnull(self, n):
        n = strip(n)
        return n.get('kind') == 'IntegerLiteral' and n.get('value') == '0' or n.get('kind') == 'GNUNullExpr'

    def basevar(self, n):
        """Pointer variable an address expression starts from."""
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            return d if is_ptr(self.types.get(d, '')) else None
        if k == 'BinaryOperator' and n['opcode'] in ('+', '-') and is_ptr(qt(n)):
            a, b = inner(n)
            if not is_ptr(qt(a)):
                a = b
            elif is_ptr(qt(b)):
                return None
            return self.basevar(a)
        if k == 'UnaryOperator' and n['opcode'] == '&':
            s = strip(inner(n)[0])
            if s.get('kind') == 'ArraySubscriptExpr':
                return self.basevar(inner(s)[0])
        return None

    def find_roots(self):
        """Pointer variables that always point into one base array."""
        cand = {}
        for d, t in self.types.items():
            if not is_ptr(t) or is_arr(t) or d in self.cells or self.isparam(d) or self.base(d):
                continue
            a = self.assigns.get(d, [])
            nn = [x for x in a if not self.isnull(x)]
            if not nn:
                continue
            bs = {self.basevar(x) for x in nn}
            if None in bs:
                continue
            cand[d] = (bs, len(nn) < len(a), len(a) == 1 and d not in self.incs)
        root = {}
        for _ in range(len(cand) + 1):
            ch = False
            for d, (bs, _n, _s) in cand.items():
                rs = set()
                for b in bs:
                    if self.base(b):
                        rs.add(b)
                    elif b in cand:
                        rs |= root.get(b, set())
                    else:
                        rs.add(None)
                if rs != root.get(d, set()):
                    root[d] = rs
                    ch = True
            if not ch:
                break
        self.nullable = set()
        ok = {d for d in cand if len(root.get(d, ())) == 1 and None not in root[d]}
        ch = True
        while ch:
            ch = False
            for d in list(ok):
                if any(not self.base(b) and b not in ok for b in cand[d][0]):
                    ok.discard(d)
                    ch = True
        for d in ok:
            if cand[d][1] or any(b in self.nullable for b in cand[d][0]):
                self.nullable.add(d)
        self.alias = {d: next(iter(root[d])) for d in ok}
        self.single = {d for d in ok if cand[d][2]}

    # ---------------------------------------------------- expressions
    def fresh(self, base='t'):
        self.tmp += 1
        n = '_%s%d' % (base, self.tmp)
        return n

    def var(self, d, nm=None):
        n = self.names.get(d)
        if n is None:
            return nm
        if d in self.cells:
            return n + '[0]'
        return n

    def offs(self, offs):
        s = ''
        for sg, b in offs:
            e = self.ex(b)
            s = '(%s %s %s)' % (s, sg, e) if s else (e if sg == '+' else '(-%s)' % e)
        return s

    def pointer(self, n):
        """(array text, offset text or '') of a pointer expression."""
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            if d in self.alias:
                r = self.var(self.alias[d])
                if d in self.single and d in self.plain:
                    return (r, '')
                return (r, 'o_' + self.names[d])
            return (self.var(d, n['referencedDecl'].get('name')), '')
        if k == 'BinaryOperator' and n['opcode'] in ('+', '-') and is_ptr(qt(n)):
            a, b = inner(n)
            if not is_ptr(qt(a)):
                a, b = b, a
            if is_ptr(qt(b)):
                raise Unsupported('pointer difference')
            r, o = self.pointer(a)
            e = self.ex(b)
            if o:
                return (r, '(%s %s %s)' % (o, n['opcode'], e))
            return (r, e if n['opcode'] == '+' else '(-%s)' % e)
        if k == 'UnaryOperator' and n['opcode'] == '&':
            s = strip(inner(n)[0])
            if s.get('kind') == 'ArraySubscriptExpr':
                a, b = inner(s)
                r, o = self.pointer(a)
                e = self.ex(b)
                return (r, '(%s + %s)' % (o, e) if o else e)
            d = declid(s)
            if d is not None and d in self.names:
                return (self.names[d], '')
            if s.get('kind') == 'UnaryOperator' and s['opcode'] == '*':
                return self.pointer(inner(s)[0])
            raise Unsupported('address')
        return (self.ex(n, True), '')

    def pval(self, n):
        d = declid(n)
        r, o = self.pointer(n)
        if d in self.nullable:
            return '(c_offset(%s, %s) if %s is not None else None)' % (r, o, o)
        return 'c_offset(%s, %s)' % (r, o) if o else r

    def null(self, n):
        d = declid(n)
        if d in self.nullable:
            return '(o_%s is None)' % self.names[d]
        if d in self.alias:
            d = self.alias[d]
            if is_arr(self.types[d]):
                return 'False'
            return '(%s is None)' % self.var(d)
        return '(%s is None)' % self.ex(n)

    def lval(self, n):
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            return self.var(d, n['referencedDecl'].get('name'))
        if k == 'ArraySubscriptExpr':
            a, b = inner(n)
            if not is_ptr(qt(a)):
                a, b = b, a
            r, o = self.pointer(a)
            e = self.ex(b)
            return '%s[%s]' % (r, '%s + %s' % (o, e) if o else e)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            r, o = self.pointer(inner(n)[0])
            return '%s[%s]' % (r, o or '0')
        if k == 'MemberExpr':
            return '%s.%s' % (self.ex(inner(n)[0]), n.get('name'))
        raise Unsupported('lvalue ' + str(k))

    def ex(self, n, raw=False):
        k = n.get('kind')
        I = inner(n)
        if k == 'ParenExpr' or k == 'ConstantExpr':
            return self.ex(I[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.cast(n)
        if k == 'IntegerLiteral':
            return n['value']
        if k == 'CharacterLiteral':
            return str(n['value'])
        if k == 'FloatingLiteral':
            v = n['value']
            f = float(v)
            return repr(f)
        if k == 'StringLiteral':
            return n['value']
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['id'] in self.alias:
                return self.pval(n)
            if rd.get('kind') == 'EnumConstantDecl':
                return rd['name']
            nm = rd.get('name')
            return self.var(rd['id'], 'None_' if nm == 'Py_None' else nm)
        if k == 'ArraySubscriptExpr' or (k == 'UnaryOperator' and n['opcode'] == '*') or k == 'MemberExpr':
            return self.lval(n)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '&':
                return self.pval(n)
            if op == '-':
                return '(-%s)' % self.ex(I[0])
            if op == '+':
                return self.ex(I[0])
            if op == '!':
                return '(0 if %s else 1)' % self.cond(I[0])
            if op == '~':
                return '(~%s)' % self.ex(I[0])
            if op in ('++', '--'):
                return self.incdec(n)
            raise Unsupported('unary ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                return '(1 if %s else 0)' % self.cond(n)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return '(1 if %s else 0)' % self.cond(n)
            if op == '=':
                return self.hoist_assign(n)
            if op == ',':
                raise Unsupported('comma')
            if is_ptr(qt(n)):
                return self.pval(n)
            a, b = self.ex(I[0]), self.ex(I[1])
            if op == '/' and not is_flt(qt(n)):
                op = '//'
            return '(%s %s %s)' % (a, op, b)
        if k == 'CompoundAssignOperator':
            return self.hoist_assign(n)
        if k == 'ConditionalOperator':
            return self.ternary(n)
        if k == 'CallExpr':
            return self.call(n)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') == 'sizeof':
                t = (n.get('argType', {}) or {}).get('qualType')
                if t is None and I:
                    t = qt(I[0])
                return 'sizeof_' + re.sub(r'\W', '_', t or 'x')
        if k == 'InitListExpr':
            return '[%s]' % ', '.join(self.ex(x) for x in I)
        if k == 'GNUNullExpr':
            return 'None'
        raise Unsupported('expr ' + str(k))

    def cast(self, n):
        ck = n.get('castKind')
        e = inner(n)[-1]
        t = qt(n)
        if ck == 'NullToPointer':
            return 'None'
        if ck == 'FloatingCast':
            if t == 'float':
                s = strip(e)
                if s.get('kind') == 'FloatingLiteral':
                    return self.ex(s)
                return 'np.float32(%s)' % self.ex(e)
            return self.ex(e)
        if ck == 'IntegralToFloating':
            s = strip(e)
            if s.get('kind') == 'IntegerLiteral':
                return s['value'] + '.0'
            return self.ex(e)
        if ck == 'FloatingToIntegral':
            return 'int(%s)' % self.ex(e)
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return self.cond(e)
        if ck == 'IntegralCast':
            if t in ('unsigned char', 'char', 'short', 'unsigned short', 'signed char'):
                s = strip(e)
                if s.get('kind') not in ('IntegerLiteral', 'CharacterLiteral') and qt(e) != t:
                    return 'np.%s(%s)' % (t.replace(' ', '_'), self.ex(e))
            return self.ex(e)
        if ck == 'ToVoid':
            return self.ex(e)
        if is_ptr(t) and is_ptr(qt(e)):
            s = strip(e)
            if self.isnull(s):
                return 'None'
            return self.pval(e)
        if is_ptr(t):
            s = strip(e)
            if self.isnull(s):
                return 'None'
        return self.ex(e)

    def cond(self, n):
        n0 = n
        n = strip(n)
        k = n.get('kind')
        I = inner(n)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                a = self.cond(I[0])
                self.nohoist += 1
                b = self.cond(I[1])
                self.nohoist -= 1
                return '(%s %s %s)' % (a, 'and' if op == '&&' else 'or', b)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                if op in ('==', '!=') and is_ptr(qt(I[0])):
                    z = 'is' if op == '==' else 'is not'
                    for x, y in (I, I[::-1]):
                        if self.isnull(y):
                            return self.null(x) if op == '==' else '(not %s)' % self.null(x)
                    return '(%s %s %s)' % (self.ex(I[0]), z, self.ex(I[1]))
                a, b = self.ex(I[0]), self.ex(I[1])
                return '(%s %s %s)' % (a, op, b)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return '(not %s)' % self.cond(I[0])
        if k == 'ConditionalOperator':
            c, a, b = I
            if strip(a).get('kind') == 'IntegerLiteral' and strip(b).get('kind') == 'IntegerLiteral':
                av, bv = strip(a)['value'], strip(b)['value']
                if av == '1' and bv == '0':
                    return self.cond(c)
        t = qt(n0)
        if k == 'CallExpr' and callee(n) in ('isfinite', 'isnan', 'isinf'):
            return self.ex(n)
        if is_ptr(t) or is_ptr(qt(n)):
            return '(not %s)' % self.null(n0)
        return '(%s != 0)' % self.ex(n0)

    def ternary(self, n):
        c, a, b = inner(n)
        s = strip(c)
        self.nohoist += 1
        try:
            if s.get('kind') == 'BinaryOperator' and s['opcode'] in ('<', '>', '<=', '>='):
                x, y = self.ex(inner(s)[0]), self.ex(inner(s)[1])
                p, q = self.ex(a), self.ex(b)
                if (x, y) == (p, q) or (x, y) == (q, p):
                    big = s['opcode'] in ('>', '>=')
                    if (x, y) == (q, p):
                        big = not big
                    return '%s(%s, %s)' % ('max' if big else 'min', p, q)
            ct = self.cond(c)
            return '(%s if %s else %s)' % (self.ex(a), ct, self.ex(b))
        finally:
            self.nohoist -= 1

    nohoist = 0

    def incdec(self, n):
        if self.nohoist:
            raise Unsupported('side effect in a conditional expression')
        lv = self.lval(inner(n)[0])
        if is_ptr(qt(n)):
            raise Unsupported('pointer increment in expression')
        t = self.fresh()
        op = '+' if n['opcode'] == '++' else '-'
        if n.get('isPostfix'):
            self.emit('%s = %s' % (t, lv))
            self.emit('%s %s= 1' % (lv, op))
        else:
            self.emit('%s %s= 1' % (lv, op))
            self.emit('%s = %s' % (t, lv))
        return t

    def hoist_assign(self, n):
        if self.nohoist:
            raise Unsupported('assignment in a conditional expression')
        t = self.fresh()
        if n['kind'] == 'BinaryOperator':
            self.emit('%s = %s' % (t, self.ex(inner(n)[1])))
            self.emit('%s = %s' % (self.lval(inner(n)[0]), t))
        else:
            self.compound(n)
            self.emit('%s = %s' % (t, self.lval(inner(n)[0])))
        return t

    def elem(self, n):
        """(count text, element type) of a byte count `n * sizeof(T)`."""
        fac = []

        def go(m):
            m = strip(m)
            if m.get('kind') == 'BinaryOperator' and m['opcode'] == '*':
                go(inner(m)[0])
                go(inner(m)[1])
            else:
                fac.append(m)
        go(n)
        t = None
        rest = []
        for f in fac:
            if f.get('kind') == 'UnaryExprOrTypeTraitExpr' and t is None:
                t = (f.get('argType', {}) or {}).get('qualType') or qt(inner(f)[0])
            else:
                rest.append(f)
        if t is None:
            return None
        return (' * '.join(self.ex(f) for f in rest) or '1', t)

    def call(self, n):
        f = callee(n)
        args = inner(n)[1:]
        if f is None:
            raise Unsupported('indirect call')
        if f in ('malloc', 'PyMem_Malloc'):
            e = self.elem(args[0])
            if e:
                return "np.empty(%s, '%s')" % e
        if f == 'calloc':
            t = strip(args[1])
            if t.get('kind') == 'UnaryExprOrTypeTraitExpr':
                e = self.elem(args[1])
                return "np.zeros(%s, '%s')" % (self.ex(args[0]), e[1])
        if f in ('memset', 'memcpy', 'memmove'):
            e = self.elem(args[2])
            z = strip(args[2])
            if z.get('kind') == 'UnaryExprOrTypeTraitExpr' and inner(z) and f == 'memset' and \
                    is_arr(qt(inner(z)[0])) and declid(strip(inner(z)[0])) == declid(args[0]):
                self.emit('%s[:] = 0' % self.pointer(args[0])[0])
                return 'None'
            pt = qt(strip(args[0]))
            if e is None and re.match(r'(unsigned char|char|uint8_t|signed char)\b', pt):
                e = (self.ex(args[2]), 'uint8_t')
            r, o = self.pointer(args[0])
            if e and f == 'memset' and self.isnull(args[1]):
                self.emit('%s[%s:%s%s] = 0' % (r, o or '0', o + '+' if o else '', e[0]))
                return 'None'
            if e and f != 'memset':
                r2, o2 = self.pointer(args[1])
                self.emit('%s[%s:%s%s] = %s[%s:%s%s]' % (r, o or '0', o + '+' if o else '', e[0],
                                                         r2, o2 or '0', o2 + '+' if o2 else '', e[0]))
                return 'None'
            raise Unsupported(f)
        if f == 'PyArray_DIM':
            return '%s.shape[%s]' % (self.ex(args[0]), self.ex(args[1]))
        if f == 'PyArray_DIMS':
            return '%s.shape' % self.ex(args[0])
        if f == 'PyArray_SIZE':
            return '%s.size' % self.ex(args[0])
        if f == 'PyArray_DATA':
            return '%s.data' % self.ex(args[0])
        if f in ('pow', 'powf'):
            return '(%s ** %s)' % (self.ex(args[0]), self.ex(args[1]))
        if f in ('fmax', 'fmaxf'):
            return 'max(%s, %s)' % (self.ex(args[0]), self.ex(args[1]))
        if f in ('fmin', 'fminf'):
            return 'min(%s, %s)' % (self.ex(args[0]), self.ex(args[1]))
        if f in ('lround', 'lroundf'):
            return 'int(np.cround(%s))' % self.ex(args[0])
        if f in ('lrint',):
            return 'int(np.rint(%s))' % self.ex(args[0])
        if f in MATH:
            s = 'np.%s(%s)' % (MATH[f], ', '.join(self.ex(a) for a in args))
            return 'np.float32(%s)' % s if f in F32 else s
        if f in DROP:
            for a in args:
                for x in walk(a):
                    if x.get('kind') in ASSIGN and x.get('opcode', '').endswith('=') and \
                            x.get('opcode') not in ('==', '!=', '<=', '>='):
                        raise Unsupported('side effect in ' + f)
            return 'None'
        nm = fname(self.cf, f)
        return '%s(%s)' % (nm, ', '.join(self.pval(a) if is_ptr(qt(a)) and not self.isnull(a)
                                         else self.ex(a) for a in args))

    # ---------------------------------------------------- statements
    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def run(self):
        self.out = []
        self.ind = 0
        ps = [self.names[p['id']] for p in self.params]
        self.emit('def %s(%s):' % (fname(self.cf, self.node['name']), ', '.join(ps)))
        self.ind = 1
        for p in self.params:
            if p['id'] in self.cells:
                self.emit('%s = [%s]' % (self.names[p['id']], self.names[p['id']]))
        self.gotos = 0
        self.seq(self.top, 0)
        if self.out[-1].startswith('def'):
            self.emit('pass')
        return '\n'.join(self.out) + '\n'

    def seq(self, L, start):
        for s in L[start:]:
            self.st(s)

    def st(self, n):
        k = n.get('kind')
        I = inner(n)
        if k is None or k == 'NullStmt':
            return
        if k == 'CompoundStmt':
            for s in I:
                self.st(s)
            return
        if k == 'DeclStmt':
            for d in I:
                if d.get('kind') == 'VarDecl':
                    self.decl(d)
            return
        if k == 'IfStmt':
            c = self.cond(I[0])
            self.emit('if %s:' % c)
            self.block(I[1])
            if len(I) > 2:
                self.emit('else:')
                self.block(I[2])
            return
        if k == 'ForStmt':
            return self.forst(n)
        if k == 'WhileStmt':
            self.emit('while True:')
            self.ind += 1
            c = self.cond(I[0])
            self.emit('if not %s:' % c)
            self.emit('    break')
            self.ind -= 1
            self.loopinc.append(None)
            self.block(I[-1])
            self.loopinc.pop()
            return
        if k == 'ReturnStmt':
            self.emit('return %s' % (self.ex(I[0]) if I else 'None'))
            return
        if k == 'LabelStmt':
            self.st(I[0])
            return
        if k == 'GotoStmt':
            self.gotos += 1
            if self.gotos > 60:
                raise Unsupported('too many gotos')
            i = self.labels.get(n.get('targetLabelDeclId'))
            if i is None:
                raise Unsupported('goto into a block')
            L = self.top[i:]
            self.emit('if True:')
            self.ind += 1
            saved = self.loopinc
            self.loopinc = []
            m = len(self.out)
            for s in L:
                self.st(s)
            if not L or strip_label(L[-1]).get('kind') != 'ReturnStmt':
                self.emit('return None')
            self.loopinc = saved
            self.ind -= 1
            return
        if k == 'ContinueStmt':
            if self.loopinc and self.loopinc[-1] is not None:
                self.incr(self.loopinc[-1])
            self.emit('continue')
            return
        if k == 'BreakStmt':
            self.emit('break')
            return
        if k == 'DoStmt' or k == 'SwitchStmt':
            raise Unsupported(k)
        self.incr(n)

    def incr(self, n):
        """Expression statement."""
        n = strip(n)
        k = n.get('kind')
        I = inner(n)
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.incr(I[0])
            self.incr(I[1])
            return
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return self.assign(n)
        if k == 'CompoundAssignOperator':
            return self.compound(n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            d = declid(I[0])
            if d in self.alias:
                self.emit('o_%s %s= 1' % (self.names[d], n['opcode'][0]))
                return
            lv = self.lval(I[0])
            if is_ptr(qt(I[0])):
                if n['opcode'] == '--':
                    raise Unsupported('pointer decrement')
                self.emit('%s = c_offset(%s, 1)' % (lv, lv))
            else:
                self.emit('%s %s= 1' % (lv, n['opcode'][0]))
            return
        if k == 'ConditionalOperator':
            self.emit('if %s:' % self.cond(I[0]))
            self.ind += 1
            self.incr(I[1])
            self.emit('pass')
            self.ind -= 1
            self.emit('else:')
            self.ind += 1
            self.incr(I[2])
            self.emit('pass')
            self.ind -= 1
            return
        if k == 'CallExpr':
            f = callee(n)
            if f == 'native_assert':
                self.emit('if not %s:' % self.cond(I[1]))
                self.emit("    raise NativeAbort()")
                return
            s = self.call(n)
            if s != 'None':
                self.emit(s)
            return
        e = self.ex(n)
        if e not in ('None', '0'):
            self.emit(e)

    def block(self, n):
        self.ind += 1
        m = len(self.out)
        self.st(n)
        if len(self.out) == m:
            self.emit('pass')
        self.ind -= 1

    def decl(self, d):
        t = qt(d)
        nm = self.names[d['id']]
        init = inner(d)[-1] if d.get('init') else None
        if is_arr(t):
            m = re.match(r'(.*?)((\[[^\]]*\])+)$', t)
            base = m.group(1).strip()
            dims = re.findall(r'\[([^\]]*)\]', m.group(2))
            if len(dims) > 1:
                raise Unsupported('2-d local array')
            if init is not None:
                e = self.ex(init)
                self.emit('%s = np.array(%s)' % (nm, e))
                return
            if dims[0].isdigit():
                cnt = dims[0]
            else:
                sz = [x for x in inner(d) if 'Expr' in x.get('kind', '') or 'Operator' in x.get('kind', '')
                      or 'Literal' in x.get('kind', '')]
                if sz:
                    cnt = self.ex(sz[0])
                else:
                    cnt = self.vla(dims[0])
            self.emit("%s = np.empty(%s, '%s')" % (nm, cnt, base))
            return
        if init is None:
            if d['id'] in self.cells:
                self.emit('%s = [None]' % nm)
            return
        if d['id'] in self.cells:
            self.emit('%s = [%s]' % (nm, self.ex(init)))
            return
        self.assign_to(d['id'], init)

    def vla(self, s):
        """Size expression of a variable-length array, from its spelling."""
        import ast
        try:
            tree = ast.parse(s, mode='eval')
        except SyntaxError:
            raise Unsupported('array size ' + s)
        byname = {}
        for d, n in self.names.items():
            byname.setdefault(self.basename(n), []).append(d)

        class R(ast.NodeTransformer):
            def visit_Name(r, x):
                L = byname.get(x.id, [])
                if len(L) != 1:
                    raise Unsupported('array size ' + s)
                return ast.parse(self.var(L[0]), mode='eval').body
        return ast.unparse(R().visit(tree))

    def basename(self, n):
        return re.sub(r'_\d*$', '', n) if re.search(r'_\d+$', n) else n.rstrip('_') if n.rstrip('_') in PYKW else n

    def assign_to(self, d, rhs):
        t = self.types.get(d, '')
        nm = self.var(d)
        if is_ptr(t) and d not in self.cells:
            if d in self.alias:
                if self.isnull(rhs):
                    self.emit('o_%s = None' % nm)
                    return
                r, o = self.pointer(rhs)
                if d in self.single and not o:
                    self.plain.add(d)
                    return
                self.emit('o_%s = %s' % (nm, o or '0'))
                return
            if not self.isnull(rhs):
                self.emit('%s = %s' % (nm, self.pval(rhs)))
                return
        self.emit('%s = %s' % (nm, self.ex(rhs)))

    def assign(self, n):
        L, R = inner(n)
        d = declid(L)
        s = strip(R)
        chain = s.get('kind') == 'BinaryOperator' and s.get('opcode') == '='
        if chain:
            # a = b = v
            self.incr(s)
            v = last_value(s)
            if pure_simple(v):
                self.emit('%s = %s' % (self.lval(L), self.ex(v)))
            else:
                self.emit('%s = %s' % (self.lval(L), self.lval(inner(s)[0])))
            return
        if d is not None and d in self.names:
            return self.assign_to(d, R)
        if is_ptr(qt(L)) and not self.isnull(R):
            e = self.pval(R)
        else:
            e = self.ex(R)
        self.emit('%s = %s' % (self.lval(L), e))

    def compound(self, n):
        L, R = inner(n)
        op = n['opcode'][:-1]
        lt = qt(L)
        if is_ptr(lt):
            d = declid(L)
            if d in self.alias:
                self.emit('o_%s %s= %s' % (self.names[d], op, self.ex(R)))
                return
            if op != '+':
                raise Unsupported('pointer -=')
            lv = self.lval(L)
            self.emit('%s = c_offset(%s, %s)' % (lv, lv, self.ex(R)))
            return
        e = self.ex(R)
        lv = self.lval(L)
        ct = (n.get('computeResultType') or {}).get('qualType', lt)
        if op == '/' and not is_flt(ct):
            op = '//'
        if lt == 'float' and ct == 'double':
            self.emit('%s = np.float32(%s %s %s)' % (lv, lv, op, e))
        elif not is_flt(lt) and is_flt(ct):
            self.emit('%s = int(%s %s %s)' % (lv, lv, op, e))
        else:
            self.emit('%s %s= %s' % (lv, op, e))

    def forst(self, n):
        init, _, cond, inc, body = inner(n)
        r = self.canonical(init, cond, inc, body, n)
        if r is not None:
            v, lo, hi, step, after = r
            self.emit('for %s in range(%s, %s%s):' % (v, lo, hi, '' if step == '1' else ', ' + step))
            self.loopinc.append(None)
            self.block(body)
            self.loopinc.pop()
            if after:
                self.emit(after)
            return
        if init.get('kind'):
            self.st(init)
        self.emit('while True:')
        self.ind += 1
        if cond.get('kind'):
            self.emit('if not %s:' % self.cond(cond))
            self.emit('    break')
        self.loopinc.append(inc if inc.get('kind') else None)
        self.st(body)
        self.loopinc.pop()
        if inc.get('kind'):
            self.incr(inc)
        self.emit('pass')
        self.ind -= 1

    def canonical(self, init, cond, inc, body, loop):
        if not (init.get('kind') and cond.get('kind') and inc.get('kind')):
            return None
        if init['kind'] == 'DeclStmt':
            ds = inner(init)
            if len(ds) != 1 or not ds[0].get('init'):
                return None
            d = ds[0]['id']
            lo = inner(ds[0])[-1]
        elif init['kind'] == 'BinaryOperator' and init['opcode'] == '=':
            d = declid(inner(init)[0])
            lo = inner(init)[1]
        else:
            return None
        if d is None or d in self.cells or is_flt(self.types.get(d, '')) or is_ptr(self.types.get(d, '')):
            return None
        if strip(lo).get('opcode') == '=':
            return None
        c = strip(cond)
        if c.get('kind') != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '>', '>='):
            return None
        a, b = inner(c)
        op = c['opcode']
        if declid(a) != d:
            if declid(b) != d:
                return None
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if any(x.get('castKind') in ('IntegralToFloating',) for x in walk(a)):
            return None
        if any(x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == d for x in walk(b)):
            return None
        i = strip(inc)
        step = None
        if i.get('kind') == 'UnaryOperator' and i['opcode'] in ('++', '--') and declid(inner(i)[0]) == d:
            step = 1 if i['opcode'] == '++' else -1
        elif i.get('kind') == 'CompoundAssignOperator' and declid(inner(i)[0]) == d and i['opcode'] in ('+=', '-='):
            s = strip(inner(i)[1])
            if s.get('kind') == 'IntegerLiteral':
                step = int(s['value']) * (1 if i['opcode'] == '+=' else -1)
        elif i.get('kind') == 'BinaryOperator' and i['opcode'] == '=' and declid(inner(i)[0]) == d:
            s = strip(inner(i)[1])
            if s.get('kind') == 'BinaryOperator' and s['opcode'] in '+-' and declid(inner(s)[0]) == d and \
                    strip(inner(s)[1]).get('kind') == 'IntegerLiteral':
                step = int(strip(inner(s)[1])['value']) * (1 if s['opcode'] == '+' else -1)
        if not step or (step > 0) != (op in ('<', '<=')):
            return None
        ch = changed(body)
        if d in ch:
            return None
        hb = {x['referencedDecl']['id'] for x in walk(b) if x.get('kind') == 'DeclRefExpr'}
        if hb & ch:
            return None
        if any(x.get('kind') in ('CallExpr', 'ArraySubscriptExpr') and callee_ok(x) is False for x in walk(b)):
            return None
        if self.live_after(d, loop):
            return None
        los, his = self.ex(lo), self.ex(b)
        if op == '<=':
            his = '%s + 1' % his
        elif op == '>=':
            his = '%s - 1' % his
        return self.names[d], los, his, str(step), None

    def live_after(self, d, loop):
        """The induction variable is read outside the loops it drives."""
        if getattr(self, '_live', None) is None:
            self._live = {}
        if d in self._live:
            return self._live[d]
        refs = set()

        def go(n, inside):
            k = n.get('kind')
            if k == 'ForStmt':
                init = inner(n)[0]
                dd = None
                if init.get('kind') == 'BinaryOperator' and init.get('opcode') == '=':
                    dd = declid(inner(init)[0])
                elif init.get('kind') == 'DeclStmt' and inner(init):
                    dd = inner(init)[0].get('id')
                if dd == d:
                    if init.get('kind') == 'BinaryOperator':
                        go(inner(init)[1], inside)
                    return
            if k == 'BinaryOperator' and n.get('opcode') == '=' and declid(inner(n)[0]) == d:
                go(inner(n)[1], inside)
                return
            if k == 'DeclRefExpr' and n['referencedDecl']['id'] == d:
                refs.add(1)
            for x in inner(n):
                go(x, inside)
        go(self.body, False)
        self._live[d] = bool(refs)
        return self._live[d]


def callee_ok(x):
    if x.get('kind') == 'CallExpr':
        return callee(x) in MATH or callee(x) in ('PyArray_DIM', 'PyArray_SIZE')
    return True


def changed(n):
    out = set()
    for x in walk(n):
        k = x.get('kind')
        if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator' or \
                (k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&')):
            d = declid(inner(x)[0])
            if d:
                out.add(d)
    return out


def last_value(n):
    while n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
        n = strip(inner(n)[1])
    return n


def pure_simple(n):
    return strip(n).get('kind') in ('FloatingLiteral', 'IntegerLiteral', 'UnaryOperator') or \
        n.get('kind') in ('ImplicitCastExpr', 'FloatingLiteral')


def strip_label(n):
    while n.get('kind') == 'LabelStmt':
        n = inner(n)[0]
    return n


def fname(cf, f):
    if f in cf.inline or f not in cf.funcs:
        return f
    return '_' + f


def translate(root, rel):
    """(python source, [(function, reason)] not translated, CFile)."""
    cf = parse(root, rel)
    out = ['import numpy as np', '']
    bad = [(rel, e) for e in cf.errors]
    for name, node in cf.funcs.items():
        try:
            out.append(Trans(cf, node).run())
        except Unsupported as e:
            bad.append((name, str(e)))
            out.append('def %s(*args):\n    untranslated(*args)\n' % fname(cf, name))
    return '\n'.join(out), bad, cf


if __name__ == '__main__':
    import sys
    s, bad, cf = translate(sys.argv[1], sys.argv[2])
    print(s)
    print('#', bad, sorted(cf.inline))
