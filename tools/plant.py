"""Development tool (no check uses it): writes /verif/seeded/<id>/ from tools/bugs.py and confirms each planted bug.
usage: plant.py write | plant.py confirm [ID...]   (confirm applies the patch to /repo, builds, tests, runs the demo and the check, undoes it)"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = '/repo'
PY = '/opt/venv/bin/python'
PRE = '''import sys, os, types, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
stub = types.ModuleType('pylibxc')
class LibXCFunctional:
    def __init__(self, name, spin):
        self.name, self.spin = name, spin
    def compute(self, inp):
        import numpy as np
        n = inp['rho']
        t = n.sum(axis=1, keepdims=True)
        out = {'zk': -0.7 * np.abs(t) ** (1/3) + 0 * t, 'vrho': -0.9 * np.abs(n) ** (1/3)}
        if 'sigma' in inp:
            out['vsigma'] = 0.01 / (1 + inp['sigma'] ** 2)
        return out
stub.LibXCFunctional = LibXCFunctional
sys.modules['pylibxc'] = stub
import numpy as np
np.random.seed(0)


def make_grid(NP=3, NM=(3, 4), a=1.3, L=2.1, h=2, factor=True):
    from CADMium.psgrid.psgrid import Psgrid
    import io, contextlib
    g = Psgrid(NP, list(NM), a, L, np.arange(-h, h + 1))
    with contextlib.redirect_stdout(io.StringIO()):
        g.initialize()
    return g


def close(a, b, what, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max())):
        print('FAILED:', what)
        sys.exit(1)
'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def bugs():
    d = {}
    exec(open(os.path.join(HERE, 'bugs.py')).read(), d)
    return d['BUGS']


def write():
    ids = {b['id'] for b in bugs()}
    root = os.path.join(V, 'seeded')
    os.makedirs(root, exist_ok=True)
    for x in os.listdir(root):
        if x not in ids:
            shutil.rmtree(os.path.join(root, x))
    tmp = tempfile.mkdtemp()
    sh('git', 'clone', '-q', REPO, tmp + '/r')
    for b in bugs():
        d = os.path.join(root, b['id'])
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            p = os.path.join(tmp, 'r', f)
            s = open(p).read()
            if s.count(old) != 1:
                print('!!', b['id'], f, 'matches', s.count(old))
                continue
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', tmp + '/r', 'diff').stdout
        sh('git', '-C', tmp + '/r', 'checkout', '-q', '--', '.')
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(PRE + b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)


def confirm(ids):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for b in bugs():
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip(), 'repo dirty'
        clean = sh('bash', d + '/demo.sh', cwd=REPO)
        r = sh('git', '-C', REPO, 'apply', d + '/patch.diff')
        try:
            bd = sh('bash', '/opt/vp/build.sh')
            t = sh('bash', '/opt/vp/test.sh', '/tmp/plant_out.json')
            tail = t.stdout.strip().splitlines()[-3:]
            dem = sh('bash', d + '/demo.sh', cwd=REPO)
            chk = sh(PY, 'check.py', b['property'], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally:
            sh('git', '-C', REPO, 'checkout', '-q', '--', '.')
        viol = [l for l in chk.stdout.splitlines() if l.startswith('VIOLATION')]
        print(b['id'], b['property'], 'clean demo', clean.returncode, 'build', bd.returncode, 'tests', [l for l in t.stdout.splitlines() if 'passed' in l or 'failed' in l][-1:], 'demo', dem.returncode,
              'CAUGHT' if chk.returncode == 1 and viol else 'MISSED', 'concrete' if any(not v.endswith('found') for v in viol) else 'no input', len(viol))
        if clean.returncode:
            print('   clean:', clean.stdout[-300:], clean.stderr[-600:])
        if dem.returncode not in (1,):
            print('   patched demo:', dem.stdout[-300:], dem.stderr[-300:])
        sys.stdout.flush()
    sh('bash', '/opt/vp/build.sh')


if sys.argv[1] == 'write':
    write()
else:
    confirm(sys.argv[2:])
