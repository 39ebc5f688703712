#!/usr/bin/env python3
"""mut.py [NAME...]: applies each mutant of mutants.py to a scratch copy and runs the named checks (quick)."""
import os, re, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
names = sys.argv[1:] or list(M)
slot = os.environ.get('SLOT', '0')
R = f'/tmp/mut{slot}/r'
os.makedirs(f'/tmp/mut{slot}', exist_ok=True)
for n in names:
    props, edits = M[n]
    shutil.rmtree(R, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', R])
    bad = False
    for f, a, b in edits:
        p = f'{R}/distributed_vector_ole/{f}'
        s = open(p).read()
        if s.count(a) < 1:
            print(n, 'EDIT NOT FOUND', f, repr(a[:60])); bad = True; continue
        open(p, 'w').write(s.replace(a, b, 1) if not a.startswith('ALL:') else s.replace(a[4:], b))
    if bad: continue
    for prop in props.split():
        t = time.time()
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=f'/tmp/mut{slot}/b')
        r = subprocess.run(['python3', os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../check.py'), prop, '--no-evidence'], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'BUILD' in l or 'rror' in l]
        m = [l for l in (r.stdout + r.stderr).split('\n') if l.strip()]
        print(f'{n} {prop} rc={r.returncode} {time.time()-t:.0f}s {v[:1]} {m[-2:] if r.returncode != 1 else ""}', flush=True)
        if r.returncode == 1:
            i = r.stdout.find('VIOLATION')
            print('   ', r.stdout[:i][-300:].replace('\n', ' | '), flush=True)
            break
