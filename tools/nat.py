"""Development helper: build and run one harness. python3-vt tools/nat.py P07 [args]  (VERIF_REPO selects the tree)"""
import sys, os, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from config import PROPS
from dv import native
pid = sys.argv[1]
cfg = PROPS[pid]
d = tempfile.mkdtemp(prefix='verif-nat-')
try:
    exe = native.build(os.environ.get('VERIF_REPO', '/repo'), cfg['native'], cfg.get('sources', []), d, extra=cfg.get('flags', ()))
    r = native.execute(exe, sys.argv[2:], 600)
    for f in r['fails']:
        print('FAIL', f[:700])
    for f in r['findings']:
        print('FINDING', f[0], f[1][:500])
    print('rc', r['rc'], 'cases', r['cases'], 'checks', r['checks'], 'distinct', r['distinct'], 'wall', r['wall'])
    print(r['covers'])
    if r['rc']:
        print(r['stderr'][:1500])
except native.BuildError as e:
    print(str(e)[:1500])
finally:
    shutil.rmtree(d)
