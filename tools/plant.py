"""plant.py SPEC.py [ids...]: build seeded/<id>/ from bug specs and confirm
each one in a scratch copy of /repo: the demo passes on the unchanged tree,
fails with the change, and the stable tests still pass.  Not used by checks."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def run(b):
    w = '/tmp/plant/w_' + b['id']
    sh('rm -rf %s; mkdir -p /tmp/plant; cp -a /repo %s' % (w, w))
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1:
                return b['id'], 'edit matches %d times in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=w).stdout
        d = os.path.join(HERE, 'seeded', b['id'])
        tmp = '/tmp/plant/d_' + b['id']; os.makedirs(tmp, exist_ok=True)
        open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        for s in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', w + '/.b_build.sh').replace('/repo', w)
            open(w + '/.b_' + s, 'w').write(t)
        if any(not f.endswith('.py') for f, _, _ in b['edits']):
            r = sh('bash .b_build.sh', cwd=w)
            if r.returncode: return b['id'], 'build: ' + r.stdout[-300:] + r.stderr[-300:]
        r0 = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        if r0.returncode: return b['id'], 'demo fails unchanged: ' + (r0.stdout + r0.stderr)[-500:]
        r1 = sh('bash %s/demo.sh' % tmp, cwd=w)
        if not r1.returncode: return b['id'], 'demo passes with the bug'
        r = sh('bash .b_test.sh /tmp/plant/o_%s.json' % b['id'], cwd=w)
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        res = json.load(open('/tmp/plant/o_%s.json' % b['id']))
        ok = set(res.get('passed', []))
        miss = [t for t in base if t not in ok]
        if miss: return b['id'], 'tests fail: %s' % miss
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        return b['id'], 'ok (%s)' % (r1.stdout + r1.stderr).strip().splitlines()[-1][:150]
    finally:
        sh('rm -rf %s /tmp/plant/d_%s' % (w, b['id']))
if __name__ == '__main__':
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(run, bugs): print(i, m, flush=True)
