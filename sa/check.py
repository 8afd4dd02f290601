#!/usr/bin/env python3
"""Decide one property on /repo's current source.

  check.py <ID> [--tier quick|thorough] [--repo /repo]

exit 0: the property held on everything analysed (KNOWN-FINDING lines for
        listed defects), exit 1 + VIOLATION line: it is broken, exit 2: the
        analysis could not be carried out (unparsable source, no anchors left).
"""
import ast
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import program
import contract
import obligations
import rules


class Finding(object):
    def __init__(self, rule, where, what, detail=()):
        self.rule, self.where, self.what, self.detail = rule, where, what, list(detail)

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.where, self.what)


def public(name):
    return not name.startswith('_') or (name.startswith('__') and name.endswith('__'))


class Check(object):
    def __init__(self, prop, tier, repo):
        self.prop, self.tier = prop, tier
        self.ref = program.load(os.path.join(ROOT, 'contracts'))
        self.act = program.load(repo)
        self.repo = repo
        self.C = contract.Contracts(self.ref, self.act)
        self.findings = []
        self.und = []
        self.counts = {}
        self.t0 = time.time()
        self.budget = 600 if tier == 'quick' else 3000

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------ contracts
    def contracts(self):
        obl = obligations.expand(self.ref, self.prop)
        sigonly = self.prop == 'P21'
        if sigonly:
            obl = obligations.expand(self.ref, self.prop, ['*:*'])
        full = self.tier == 'thorough' and not sigonly
        verd = {}
        self.samples = []
        for path, qual in obl:
            if full and time.time() - self.t0 > self.budget:
                full = False
            v = self.one(path, qual, full)
            verd[(path, qual)] = v
            self.record(path, qual, v, sigonly)
        if not sigonly:
            self.dispatch(obl, verd)
        self.class_level(obl)
        self.obl = obl

    def one(self, path, qual, full=False):
        return self.C.compare(path, qual, full=full)

    def record(self, path, qual, v, sigonly=False, where=None):
        self.count('functions')
        where = where or '%s: %s' % (path, qual)
        name = qual.split('.')[-1]
        if v.status == 'equal':
            self.count('identical definition' if v.why == 'identical' else 'equal value graph')
            if len(self.samples) < 3:
                self.samples.append('%s: %s' % (where, v.why))
        elif v.status == 'missing':
            if public(name):
                self.findings.append(Finding('contract', where, 'operation no longer exists', [v.why]))
            else:
                self.count('private helper gone (callers compared with it spliced in)')
        elif v.status == 'undecided':
            self.und.append('%s: %s' % (where, v.why))
            self.count('undecided')
        else:
            diffs = v.diffs
            if sigonly:
                diffs = [d for d in diffs if d[0] in ('signature', 'argument order', 'decorators') or
                         d[0].startswith('default of')]
                if not diffs:
                    self.count('signature kept')
                    return
            if not public(name) and not self.private_matters(path, qual):
                self.count('private helper changed together with its callers')
                return
            vv = contract.Verdict(v.status, diffs, v.why, v.func)
            self.findings.append(Finding('contract', where, 'differs from its confirmed behaviour: ' + diffs[0][0],
                                         contract.report(path, qual, vv)))

    def private_matters(self, path, qual):
        """a private helper's behaviour changed: it matters unless every
        caller still has its confirmed behaviour with the helper spliced in"""
        name = qual.split('.')[-1]
        h = self.ref.get(path, qual)
        callers = []
        for p, q in obligations.functions(self.ref):
            f = self.ref.get(p, q)
            if f is None or q == qual:
                continue
            if name in called_names(f.node):
                r = self.reaches(f, h, name)
                if r is not None:
                    callers.append((p, q, r))
        if not callers:
            return True
        t0 = time.time()
        for p, q, spliced in sorted(callers, key=lambda c: c[2]):
            if time.time() - t0 > 240:
                return True
            v = self.C.compare(p, q, modes=('new',), full=True)
            if v.status == 'missing':
                continue
            same = v.status == 'equal' or self.C.identical(self.ref.get(p, q), self.act.get(p, q))
            if not spliced and same:
                # the same call, dispatched at run time, now does something else
                return True
            w = self.C.compare(p, q, modes=('private', 'all'), full=True)
            if w.status == 'equal' and (not same or (path, h.qual) in w.spliced):
                continue
            if same or w.status == 'violated':
                return True
        return False

    def reaches(self, f, h, name):
        """can function f call helper h?  None: no; True: a call of it in f resolves
        to h itself (so h is spliced in there); False: only dispatched at run time"""
        if h is None or h.cls is None:
            return True
        own = other = up = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name:
                b = n.value
                if isinstance(b, ast.Name) and f.cls is not None and b.id in ('self', 'cls'):
                    own = True
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and f.cls is not None:
                    up = True
                elif isinstance(b, ast.Name) and b.id == h.cls.name:
                    up = True
                else:
                    other = True
        if other:
            return False
        if own and self.ref.lookup(f.cls, name) is not h and f.cls in self.ref.mro(h.cls):
            return False
        if own and self.ref.lookup(f.cls, name) is h:
            return True
        if up and (f.cls is None or h.cls in self.ref.mro(f.cls)):
            return True
        return None if own or up else True

    # ------------------------------------------------------------ dispatch
    def dispatch(self, obl, verd):
        """a call of method m on a class must reach the confirmed definition,
        or one with the same behaviour (new overrides, changed bases)"""
        own = set(obl)
        for path, qual in obligations.functions(self.ref):
            pass
        seen = set()
        for m in self.ref.modules.values():
            if not (m.path.startswith(obligations.INSCOPE) or m.path in obligations.WISE):
                continue
            for c in m.classes.values():
                am = self.act.by_path.get(m.path)
                ac = self.act.find_class_in(am, c.name) if am is not None else None
                if ac is None:
                    continue
                names = set()
                for k in self.ref.mro(c):
                    names |= set(k.methods)
                for n in sorted(names):
                    rf = self.ref.lookup(c, n)
                    if (rf.module.path, rf.qual) not in own:
                        continue
                    self.count('dispatch edges')
                    af = self.act.lookup(ac, n)
                    if n in ac.attrs and n not in ac.methods:
                        self.findings.append(Finding('dispatch', '%s: %s.%s' % (m.path, c.name, n),
                                                     'method replaced by a class attribute'))
                        continue
                    if af is None:
                        if public(n) and rf.cls is not c:
                            self.findings.append(Finding('dispatch', '%s: %s.%s' % (m.path, c.name, n),
                                                         'inherited operation no longer reachable'))
                        continue
                    if (af.module.path, af.qual) == (rf.module.path, rf.qual):
                        continue
                    if rf.cls is c and n not in ac.methods and (m.path, c.name + '.' + n) in own:
                        continue     # compared above through the MRO
                    v = self.C.compare_funcs(rf, c, af, ac)
                    self.record(m.path, c.name + '.' + n, v, where='%s: %s.%s (now defined by %s)' % (
                        m.path, c.name, n, af.where))

    def class_level(self, obl):
        """class attributes, module constants the functions use"""
        from terms import NONE
        cls = sorted({(p, q.split('.')[0]) for p, q in obl if '.' in q})
        mods = sorted({p for p, q in obl})
        import value as V
        for p, cn in cls:
            rc = self.ref.by_path[p].classes.get(cn)
            am = self.act.by_path.get(p)
            ac = self.act.find_class_in(am, cn) if am is not None else None
            if rc is None or ac is None:
                continue
            for a, e in rc.attrs.items():
                self.count('class attributes')
                if a in ac.methods or a not in ac.attrs:
                    x, k = self.act.class_attr(ac, a)
                    if x is None:
                        if not a.startswith('_'):
                            self.findings.append(Finding('class attribute', '%s: %s.%s' % (p, cn, a), 'no longer defined'))
                        continue
                else:
                    x = ac.attrs[a]
                self.expr(e, self.ref.by_path[p], x, ac.module, 'class attribute', '%s: %s.%s' % (p, cn, a))
        for p in mods:
            rm, am = self.ref.by_path[p], self.act.by_path.get(p)
            if am is None:
                continue
            for a, e in rm.consts.items():
                if a in am.consts:
                    self.count('module constants')
                    self.expr(e, rm, am.consts[a], am, 'module constant', '%s: %s' % (p, a))

    def expr(self, re_, rm, ae, am, rule, where):
        import ast
        if ast.dump(re_) == ast.dump(ae):
            return
        try:
            rv = self.evalx(self.ref, rm, re_)
            av = self.evalx(self.act, am, ae)
        except Exception as e:
            self.und.append('%s: %s' % (where, e))
            return
        from compare import Differ
        d = Differ().diff(rv, av)
        if not d:
            return
        st, why = self.C.classify([('value', f, a, b) for f, a, b in d], None, None)
        if st == 'violated':
            v = contract.Verdict(st, [('value', f, a, b) for f, a, b in d])
            self.findings.append(Finding(rule, where, 'value changed', contract.report(where, '', v)))
        else:
            self.und.append('%s: %s' % (where, why))

    def evalx(self, prog, mod, e):
        import ast
        import value as V
        fn = ast.parse('def _c_():\n  return 0').body[0]
        fn.body[0].value = e
        f = program.Func('_c_', fn, mod)
        return V.Evaluator(prog).summarize(f).ret

    # ------------------------------------------------------------ run
    def run(self):
        if self.act.errors:
            for r, e in self.act.errors:
                print('ERROR: %s does not parse: %s' % (r, e))
            return 2
        self.samples = []
        self.obl = []
        if obligations.OBL.get(self.prop):
            self.contracts()
            if len(self.obl) < 3:
                print('ERROR: only %d functions matched' % len(self.obl))
                return 2
        for rule in rules.RULES.get(self.prop, []):
            r = rule(self)
            self.findings.extend(r or [])
        return self.report()

    def report(self):
        kf = []
        fn = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(fn):
            kf = json.load(open(fn))
        known = {(k['property'], k['key']): k for k in kf if k.get('status') == 'known'}
        new, old = [], []
        seen = set()
        for f in self.findings:
            if f.key in seen:
                continue
            seen.add(f.key)
            k = known.get((self.prop, f.key))
            (old if k else new).append(f)
        for f in old:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[(self.prop, f.key)]['what']))
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        for f in new:
            print('%s: [%s] %s' % (f.where, f.rule, f.what))
            for d in f.detail[:20]:
                print('    ' + d)
        n = self.counts
        print('%s: analysed %s' % (self.prop, ', '.join('%d %s' % (v, k) for k, v in sorted(n.items()))))
        for u in self.und[:20]:
            print('undecided (not counted as held): ' + u[:200])
        cov = dict(explanation='Static analysis of the current source: every function below is summarised as a '
                   'value graph (returned value, stored attributes, effects, exceptions, all as functions of the '
                   'inputs, under all path conditions) and compared with the confirmed behaviour; property-specific '
                   'rules inspect the same trees. Nothing is executed.',
                   counts=n, undecided=self.und[:50], samples=self.samples,
                   rules=[r.__name__ + ': ' + (r.__doc__ or '').strip().split('\n')[0]
                          for r in rules.RULES.get(self.prop, [])],
                   source_digest=self.act.digest)
        e = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                 coverage=cov, wall_s=round(time.time() - self.t0, 2),
                 assumptions=['Python/numpy/scipy semantics of the operations named in the graphs',
                              'undecided constructs are listed, and not counted as held'],
                 violations=[f.key for f in new])
        json.dump(e, open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        if new:
            rp = os.path.join(ev, 'replay', self.prop + '.txt')
            with open(rp, 'w') as o:
                for f in new:
                    o.write('%s\n%s\n' % (f.key, '\n'.join('    ' + d for d in f.detail)))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0


def called_names(node):
    import ast
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Name):
            out.add(n.id)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        try:
            rc[0] = Check(a.prop, tier, a.repo).run()
        except Exception:
            import traceback
            traceback.print_exc()
            rc[0] = 2
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    main()
