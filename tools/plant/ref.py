#!/usr/bin/env python3
"""ref.py NAME [CHECK...]: applies a refactoring (from refactors.py or refactor_NAME.diff) to a scratch copy and runs the checks; all must be quiet."""
import os, subprocess, sys, shutil, json, time
sys.path.insert(0, os.path.dirname(__file__))
from refactors import R
name = sys.argv[1]
P = f'/tmp/ref{name}/r'
os.makedirs(f'/tmp/ref{name}', exist_ok=True)
shutil.rmtree(P, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', P])
patch = os.path.join(os.path.dirname(os.path.abspath(__file__)), f'refactor_{name}.diff')
if os.path.exists(patch): subprocess.check_call(['git', '-C', P, 'apply', patch])
for f, a, b in R.get(name, []):
    p = f'{P}/distributed_vector_ole/{f}'
    s = open(p).read()
    al = a.startswith('ALL:')
    if al: a = a[4:]
    if a not in s: print('EDIT NOT FOUND', f, repr(a[:70])); sys.exit(2)
    open(p, 'w').write(s.replace(a, b) if al else s.replace(a, b, 1))
ids = sys.argv[2:] or [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for c in ids:
    t = time.time()
    r = subprocess.run(['python3', '/verif/check.py', c, '--no-evidence'], env=dict(os.environ, VERIF_REPO=P, VERIF_BUILD=f'/tmp/ref{name}/b'), capture_output=True, text=True)
    print(name, c, 'rc', r.returncode, f'{time.time()-t:.0f}s', '' if r.returncode == 0 else r.stdout[-900:] + r.stderr[-600:], flush=True)
