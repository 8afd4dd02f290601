"""Program model: modules, classes, functions, imports and MRO of a source
tree, built from the syntax trees only (nothing is imported or executed)."""
import ast
import os


class Func(object):
    def __init__(self, name, node, module, cls=None, outer=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer

    @property
    def qual(self):
        if self.cls is not None:
            return '%s.%s' % (self.cls.name, self.name)
        return self.name

    @property
    def where(self):
        return '%s:%s' % (self.module.path, self.qual)

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            if isinstance(d, ast.Attribute):
                out.append(d.attr)
            elif isinstance(d, ast.Name):
                out.append(d.id)
        return out

    def __repr__(self):
        return '<Func %s>' % self.where


class Class(object):
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}      # class-level assignments name -> ast expr
        self.basenames = []
        self._mro = None

    def __repr__(self):
        return '<Class %s>' % self.name


class Module(object):
    def __init__(self, path, tree, src):
        self.path = path          # relative path
        self.tree = tree
        self.src = src
        self.funcs = {}
        self.classes = {}
        self.imports = {}         # local name -> dotted name
        self.consts = {}
        self.varying = set()      # globals with more than one possible value
        self.native = None
        if path.endswith('.i'):
            self.name = path[:-2].replace('/', '.') + '_i'
        else:
            self.name = path[:-3].replace('/', '.')
        if self.name.endswith('.__init__'):
            self.name = self.name[:-9]


class Program(object):
    def __init__(self):
        self.modules = {}         # dotted -> Module
        self.by_path = {}
        self.classes = {}         # simple name -> [Class]
        self.funcs = {}           # simple name -> [Func] (module level)
        self.methods = {}         # simple name -> [Func]
        self.errors = []
        self.digest = None

    def add_file(self, root, rel, src=None):
        if src is None:
            with open(os.path.join(root, rel), encoding='utf-8',
                      errors='replace') as f:
                src = f.read()
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, rel)
        except SyntaxError as e:
            self.errors.append((rel, str(e)))
            return None
        m = Module(rel, tree, src)
        self.modules[m.name] = m
        self.by_path[rel] = m
        self._scan(m, tree.body)
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                m.varying |= set(n.names)
        return m

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s.name, s, m)
                m.funcs[s.name] = f
                self.funcs.setdefault(s.name, []).append(f)
            elif isinstance(s, ast.ClassDef):
                self._scan_class(m, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                self.scan_importfrom(m, s, m.imports)
            elif isinstance(s, ast.Try):
                self._scan(m, s.body)
                for h in s.handlers:
                    for x in h.body:
                        if isinstance(x, ast.Assign):
                            for tg in x.targets:
                                if isinstance(tg, ast.Name):
                                    m.varying.add(tg.id)
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            self._scan(m, [x])
                self._scan(m, s.orelse)
            elif isinstance(s, ast.If):
                if _is_main(s):
                    continue
                self._scan(m, s.body)
                self._scan(m, s.orelse)
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        m.consts[tg.id] = s.value

    def scan_importfrom(self, m, s, out):
        mod = s.module or ''
        if s.level:
            pk = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            mod = '.'.join(pk + ([mod] if mod else []))
        for a in s.names:
            out[a.asname or a.name] = mod + '.' + a.name if a.name != '*' else mod

    def _scan_class(self, m, s):
        c = Class(s.name, s, m)
        for b in s.bases:
            if isinstance(b, ast.Name):
                c.basenames.append(b.id)
            elif isinstance(b, ast.Attribute):
                c.basenames.append(b.attr)
        def scan_body(body):
            for x in body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(x.name, x, m, c)
                    nm = x.name
                    for d in x.decorator_list:
                        if isinstance(d, ast.Attribute) and d.attr == 'setter':
                            nm = x.name + '.setter'
                    f.name = nm
                    c.methods[nm] = f
                elif isinstance(x, ast.Assign):
                    for tg in x.targets:
                        if isinstance(tg, ast.Name):
                            if isinstance(x.value, ast.Name) and \
                                    x.value.id in c.methods:
                                c.methods[tg.id] = c.methods[x.value.id]
                            else:
                                c.attrs[tg.id] = x.value
                elif isinstance(x, ast.AnnAssign) and x.value is not None and \
                        isinstance(x.target, ast.Name):
                    c.attrs[x.target.id] = x.value
                elif isinstance(x, ast.ClassDef):
                    self._scan_class(m, x)
                elif isinstance(x, ast.If):
                    scan_body(x.body)
        scan_body(s.body)
        for f in set(c.methods.values()):
            self.methods.setdefault(f.name, []).append(f)
        m.classes.setdefault(s.name, c)
        self.classes.setdefault(s.name, []).append(c)

    # ------------------------------------------------------------- resolve
    def find_class(self, name, module=None):
        if module is not None:
            if name in module.classes:
                return module.classes[name]
            if name in module.imports:
                q = module.imports[name]
                pk, _, nm = q.rpartition('.')
                mm = self.modules.get(pk)
                if mm is not None:
                    c = self.find_class_in(mm, nm)
                    if c is not None:
                        return c
                name = nm
            # star imports
            for q in module.imports.values():
                mm = self.modules.get(q)
                if mm is not None and mm is not module and name in mm.classes:
                    return mm.classes[name]
        L = self.classes.get(name, [])
        pref = [c for c in L if c.module.path.startswith('tractor/')]
        if len(pref) == 1:
            return pref[0]
        if len(L) == 1:
            return L[0]
        return None

    def find_class_in(self, mod, name, depth=0):
        if name in mod.classes:
            return mod.classes[name]
        if depth < 4:
            if name in mod.imports:
                q = mod.imports[name]
                pk, _, nm = q.rpartition('.')
                mm = self.modules.get(pk)
                if mm is not None:
                    return self.find_class_in(mm, nm, depth + 1)
            for q in set(mod.imports.values()):
                mm = self.modules.get(q)
                if mm is not None and name in mm.classes:
                    return mm.classes[name]
        return None

    def mro(self, c, _stk=()):
        if c._mro is not None:
            return c._mro
        if c in _stk:
            return [c]
        bases = []
        for b in c.basenames:
            bc = self.find_class(b, c.module)
            if bc is not None:
                bases.append(bc)
        seqs = [list(self.mro(b, _stk + (c,))) for b in bases] + [list(bases)]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in q[1:] for q in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for q in seqs:
                if q and q[0] is h:
                    del q[0]
                elif h in q:
                    q.remove(h)
        c._mro = out
        return out

    def lookup(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def lookup_after(self, c, after, name):
        """super(after, self).name for self of class c"""
        m = self.mro(c)
        if after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None, None

    def subclasses(self, c):
        if not hasattr(self, '_subs'):
            self._subs = {}
        if c in self._subs:
            return self._subs[c]
        out = self._subs[c] = []
        for L in self.classes.values():
            for k in L:
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def find_func(self, name, module):
        if name in module.funcs:
            return module.funcs[name]
        if name in module.imports:
            q = module.imports[name]
            pk, _, nm = q.rpartition('.')
            mm = self.modules.get(pk)
            if mm is not None:
                return self.func_in(mm, nm)
            return None
        for q in set(module.imports.values()):
            mm = self.modules.get(q)
            if mm is not None and mm is not module and name in mm.funcs:
                return mm.funcs[name]
        return None

    def func_in(self, mod, name, depth=0):
        if name in mod.funcs:
            return mod.funcs[name]
        if depth < 4 and name in mod.imports:
            q = mod.imports[name]
            pk, _, nm = q.rpartition('.')
            mm = self.modules.get(pk)
            if mm is not None:
                return self.func_in(mm, nm, depth + 1)
        return None

    def get(self, path, qual):
        """function by 'path' and 'Class.method' or 'func'; a method that
        moved to another class is found through the MRO, a function that moved
        to another module through the imports."""
        m = self.by_path.get(path)
        parts = qual.split('.')
        if len(parts) >= 2 and parts[-1] == 'setter':
            parts = parts[:-2] + [parts[-2] + '.setter']
        if m is None:
            return None
        if len(parts) == 1:
            return self.func_in(m, qual)
        c = m.classes.get(parts[0]) or self.find_class_in(m, parts[0])
        if c is None:
            return None
        return self.lookup(c, parts[1])


def _is_main(s):
    return (isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name)
            and s.test.left.id == '__name__')


SKIP = {'tractor/mix.py', 'tractor/emfit.py', 'tractor/mp_fourier.py',
        'tractor/ceres.py', 'tractor/version.py', 'tractor/ordereddict.py',
        'tractor/total_ordering.py'}


def load(root, dirs=('tractor', 'wise')):
    import hashlib
    p = Program()
    h = hashlib.sha256()
    for d in dirs:
        dd = os.path.join(root, d)
        if not os.path.isdir(dd):
            continue
        for fn in sorted(os.listdir(dd)):
            if not fn.endswith('.py'):
                continue
            rel = d + '/' + fn
            if rel in SKIP or fn.startswith(('setup', 'test_')):
                continue
            if d == 'wise' and fn not in ('forcedphot.py', 'unwise.py'):
                continue
            m = p.add_file(root, rel)
            if m is not None:
                h.update(rel.encode() + b'\0' + m.src.encode())
    import native
    for rel in native.FILES:
        if not os.path.exists(os.path.join(root, rel)):
            continue
        src, bad, cf = native.translate(root, rel)
        m = p.add_file(root, rel, src)
        if m is not None:
            m.native = cf
            m.untranslated = bad
        p.errors += [(rel, e) for e in cf.errors]
        h.update(rel.encode() + b'\0' + cf.digest_text.encode())
    p.digest = h.hexdigest()
    return p


ARRAYATTRS = {'shape', 'dtype', 'ravel', 'astype', 'flat', 'T', 'reshape', 'ndim'}


def arrays(*progs):
    """(attribute names, method names, (path, function, parameter)) that the
    programs themselves show to hold arrays: their shape, dtype, ... is taken,
    or a parameter is stored into"""
    # the arrays of Image; the rest is found from use
    attrs, methods, params = {'inverr', 'data'}, {'getInvError', 'getInvvar'}, set()
    for prog in progs:
        for m in prog.modules.values():
            if not m.path.endswith('.py'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr in ARRAYATTRS and isinstance(n.value, ast.Attribute):
                    attrs.add(n.value.attr)
            fl = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
            for f in fl:
                a = f.node.args
                names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
                for n in ast.walk(f.node):
                    nm = None
                    if isinstance(n, ast.Attribute) and n.attr in ARRAYATTRS and isinstance(n.value, ast.Name):
                        nm = n.value.id
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        nm = n.value.id
                    if nm in names:
                        params.add((m.path, f.qual, nm))
    for prog in progs:
        for m in prog.modules.values():
            for c in m.classes.values():
                for f in c.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and n.value.attr in attrs and \
                                isinstance(n.value.value, ast.Name) and n.value.value.id == 'self':
                            methods.add(f.name)
    return attrs, methods, params
