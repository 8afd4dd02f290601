"""Property-specific rules over the current tree.  Each rule takes the running
check (check.act: the analysed program) and returns findings; it needs no
reference."""
import ast
import re


def finding(*a):
    import check
    return check.Finding(*a)


def natives(chk):
    for m in chk.act.modules.values():
        cf = getattr(m, 'native', None)
        if cf is not None:
            yield m, cf


# ------------------------------------------------------------------ P23
def ownership(chk):
    """acquire/release typestate of the native routines (every reference and buffer released exactly once on every path, nothing used while NULL or after release)"""
    import cown
    out = []
    for m, cf in natives(chk):
        if cf.errors:
            chk.und.append('%s: not parsed: %s' % (cf.rel, cf.errors[0][:150]))
        o = cown.Own(cf)
        try:
            found = o.run()
        except RecursionError:
            chk.und.append(cf.rel + ': recursion limit in the ownership analysis')
            continue
        chk.count('native entry points', len(o.roots()))
        chk.count('native exit paths', o.paths)
        chk.count('acquisition sites', len(o.sites))
        chk.count('release sites', len(o.releases))
        chk.und.extend(o.undecided)
        for (fn, kind, what), text in sorted(found.items()):
            out.append(finding('ownership', '%s: %s' % (cf.rel, fn), '%s of %s' % (kind, what) if kind != 'untyped' else
                               'untyped conversion of ' + what, [text]))
    return out


def typemaps(chk):
    """SWIG array typemaps: pointer arguments of the wrapped routines are bound to array typemaps of the same element type and rank, and arrays they write are bound in place"""
    import value as V
    out = []
    used = set()
    for m in chk.act.modules.values():
        if m.path.endswith('.i'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                used |= {a.name for a in n.names}
            elif isinstance(n, ast.Attribute):
                used.add(n.attr)
    for m, cf in natives(chk):
        if not re.search(r'%init\s*%\{[^%]*import_array\(\)', cf.text):
            out.append(finding('typemaps', cf.rel, 'the array API is not initialised'))
        rule = {}
        for lhs, groups in cf.applies:
            for g in groups:
                rule[g] = lhs
        for nm in sorted(cf.inline & set(cf.funcs)):
            if nm not in used:
                continue
            f = cf.protos[nm]
            own = [p.get('name') for p in cf.funcs[nm].get('inner', []) if p.get('kind') == 'ParmVarDecl']
            ps = [(re.sub(r'\s|\b(restrict|const)\b', '', p.get('type', {}).get('qualType', '')), p.get('name'))
                  for p in f.get('inner', []) if p.get('kind') == 'ParmVarDecl']
            fn = m.funcs.get(nm)
            wr = V.written_params(fn) if fn is not None else ()
            i = 0
            where = '%s: %s' % (cf.rel, nm)
            while i < len(ps):
                ty, name = ps[i]
                if not ty.endswith('*') or ty.startswith('PyObject'):
                    i += 1
                    continue
                chk.count('array arguments')
                g = lhs = None
                if name in ('OUTPUT', 'INOUT'):
                    i += 1
                    continue
                for n in (4, 3, 2, 1):
                    g = tuple(ps[i:i + n])
                    if len(g) == n and g in rule:
                        lhs = rule[g]
                        break
                if lhs is None:
                    out.append(finding('typemaps', where, 'argument %s is bound to no array typemap' % name))
                    i += 1
                    continue
                kind = lhs[0][1]
                if [a for a, b in lhs] != [a for a, b in g]:
                    out.append(finding('typemaps', where, 'argument %s: types %s bound to %s' % (
                        name, [a for a, b in g], [a for a, b in lhs])))
                r = re.search(r'ARRAY(\d)', kind)
                if r and (int(r.group(1)) != len(lhs) - 1 or [b for a, b in lhs[1:]] != ['DIM%d' % (k + 1) for k in range(len(lhs) - 1)]):
                    out.append(finding('typemaps', where, 'argument %s: rank of %s' % (name, kind)))
                if i < len(own) and own[i] in wr and not kind.startswith(('INPLACE', 'ARGOUT', 'OUTPUT', 'INOUT')):
                    out.append(finding('typemaps', where, 'argument %s is written but bound as %s: the caller never sees the result' % (
                        name, kind)))
                i += len(g)
    return out


RULES = {
    'P23': [ownership, typemaps],
}
