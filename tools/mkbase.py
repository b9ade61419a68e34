#!/usr/bin/env python3
"""dv/base/<id>.gz: fingerprint (code, loop heads) of every unit fully proved on /repo's current tree.
usage: mkbase.py [ids]   (run on the unchanged tree after a fix or a spec change)"""
import sys, os, json, gzip, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 28) if i != 26]
os.makedirs(os.path.join(V, 'dv', 'base'), exist_ok=True)
d = tempfile.mkdtemp()
for i in ids:
    p = subprocess.run([os.path.join(V, 'check.py'), i], env=dict(os.environ, VP_BASELINE=d), capture_output=True, text=True)
    f = os.path.join(d, i + '.json')
    if p.returncode or not os.path.exists(f): print(i, 'rc', p.returncode, p.stdout[-300:]); continue
    b = json.load(open(f))
    with gzip.GzipFile(os.path.join(V, 'dv', 'base', i + '.gz'), 'wb', mtime=0) as g: g.write(''.join(f'{k} {a} {l}\n' for k, (a, l) in sorted(b.items())).encode())
    print(i, len(b), 'units', p.stdout.strip().split('\n')[-1][-160:], flush=True)
shutil.rmtree(d)
