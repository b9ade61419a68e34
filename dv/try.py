import sys, os, tempfile, importlib, time
os.environ.setdefault('DV_DEBUG', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv
drv.SCRATCH = tempfile.mkdtemp(prefix='dvtry')
m = importlib.import_module('specs.' + sys.argv[1])
us = [u for u in m.UNITS if len(sys.argv) < 3 or any(x in u.name for x in sys.argv[2:])]
t = time.time()
R, O = drv.prove(us)
for r in R:
    print(r['unit'], r['status'], r['why'][:300], 'obls', len(r['obls']), 'paths', r['paths'], f"{r['exec_s']:.1f}s", r['notes'])
bad = [o for o in O if o['result'] != 'unsat']
from collections import Counter
print(Counter((o['result'], o['by']) for o in O), f'{time.time()-t:.1f}s', 'max', max([o['s'] for o in O] or [0]))
for o in bad[:25]:
    print('BAD', o['unit'], o['name'], o['kind'], o['result'], o.get('attempts'), str(o.get('model'))[:600])
os.makedirs('/tmp/w/bad', exist_ok=True)
for i, o in enumerate(bad[:40]): open(f'/tmp/w/bad/{i}.smt2', 'w').write(o.get('smt') or '')
import shutil; shutil.rmtree(drv.SCRATCH)
for o in sorted(O, key=lambda o: -o['s'])[:4]:
    if o['s'] > 2: print('SLOW', f"{o['s']:.1f}", o['unit'], o['name'], o.get('attempts'))
