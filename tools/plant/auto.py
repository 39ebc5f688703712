#!/usr/bin/env python3
"""auto.py SLOT FILE N SEED: N random syntactic mutants of one source file, each run through the checks of that file
until one sees it. Survivors are printed with their diff."""
import os, random, re, subprocess, sys, time, shutil
slot, fname, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
CHECKS = {
    'gf128.cpp': 'C01 C02', 'gf128.h': 'C02 C01', 'internal/scalar_helpers.h': 'C03 C05 C06 C17', 'internal/ntl_helpers.h': 'C04 C03 C14',
    'internal/ntl_helpers.cpp': 'C04 C03', 'aes_uniform_bit_generator.cpp': 'C07 C08', 'aes_uniform_bit_generator.h': 'C08 C07', 'ggm_tree.cpp': 'C09 C10', 'ggm_tree.h': 'C09 C10',
    'cuckoo_hasher.cpp': 'C11 C13 C12', 'cuckoo_hasher.h': 'C11 C12 C13', 'all_but_one_random_ot.h': 'C14 C21 C22 C20', 'all_but_one_random_ot.cpp': 'C14 C21 C22 C20',
    'internal/all_but_one_random_ot_internal.h': 'C14 C15 C22', 'spfss_known_index.h': 'C15 C21 C20 C22', 'spfss_known_index.cpp': 'C15 C21 C22', 'mpfss_known_indices.h': 'C16 C21 C20 C22 C23',
    'mpfss_known_indices.cpp': 'C16 C21 C22 C23', 'scalar_vector_gilboa_product.h': 'C17 C21 C20 C22', 'scalar_vector_gilboa_product.cpp': 'C17 C21', 'internal/gilboa_internal.h': 'C17 C20',
    'distributed_vector_ole.h': 'C18 C23 C19 C21 C20', 'distributed_vector_ole.cpp': 'C19 C18',
}
src = open('/repo/distributed_vector_ole/' + fname).read().split('\n')
rng = random.Random(seed)
cand = []
def add(i, new, what):
    if new != src[i]: cand.append((i, new, what))
inc = False
for i, line in enumerate(src):
    code = line.split('//')[0]
    if not code.strip() or code.strip().startswith(('#include', '*', '/*', '#ifndef', '#define', '#endif', 'namespace')): continue
    if i < 15: continue
    tail = line[len(code):]
    if '"' in code and 'return' not in code and 'Error' not in code and code.strip().startswith('"'): continue
    def subs(pat, rep, what):
        for m in re.finditer(pat, code):
            if code[:m.start()].count('"') % 2: continue
            add(i, code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():] + tail, what)
    if not re.search(r'#include|template|Span<|vector<|StatusOr<|unique_ptr<|static_cast<|optional<|Map<|Vec<', code):
        subs(r' < ', ' <= ', '<'); subs(r' > ', ' >= ', '>')
    else:
        subs(r' < ', ' <= ', '<'); subs(r' > ', ' >= ', '>')
    subs(r' <= ', ' < ', '<='); subs(r' >= ', ' > ', '>='); subs(r' == ', ' != ', '=='); subs(r' != ', ' == ', '!=')
    subs(r' && ', ' || ', '&&'); subs(r' \|\| ', ' && ', '||')
    subs(r' \+ ', ' - ', '+'); subs(r' - ', ' + ', '-'); subs(r' \* ', ' + ', '*'); subs(r' / ', ' * ', '/'); subs(r' % ', ' / ', '%')
    subs(r' \+= ', ' -= ', '+='); subs(r' -= ', ' += ', '-='); subs(r' \^= ', ' |= ', '^=')
    subs(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1), 'n+1')
    subs(r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1), 'n-1')
    subs(r'\btrue\b', 'false', 'true'); subs(r'\bfalse\b', 'true', 'false')
    subs(r'\bif \(', 'if (!(true) && ', 'never') if 'if (' in code and code.rstrip().endswith('{') and code.count('(') == code.count(')') else None
    if re.match(r'\s+[\w.\->\[\]()*]+(\(|\s*[-+^*|]?= |\+\+|--).*;\s*$', code) and not re.match(r'\s+(return|const|int|auto|std|absl|NTL|Vector|typename|using|static|thread_local|T |bool|uint|explicit|virtual|friend)\b', code):
        add(i, re.match(r'\s*', code).group(0) + '/* removed */;', 'delete')
    if code.strip().startswith('#pragma omp'): add(i, '', 'pragma')
rng.shuffle(cand)
R = f'/tmp/auto{slot}/r'
os.makedirs(f'/tmp/auto{slot}', exist_ok=True)
done = 0
for i, new, what in cand:
    if done >= n: break
    shutil.rmtree(R, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', R])
    s = list(src); s[i] = new
    open(f'{R}/distributed_vector_ole/{fname}', 'w').write('\n'.join(s))
    out = None
    t0 = time.time()
    for c in CHECKS[fname].split():
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=f'/tmp/auto{slot}/b')
        try:
            r = subprocess.run(['python3', '/verif/check.py', c, '--no-evidence'], env=env, capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            out = c + ' TIMEOUT'; break
        if 'BUILD-ERROR' in r.stdout + r.stderr: out = 'nobuild'; break
        if r.returncode == 1: out = c; break
        if r.returncode != 0: out = f'{c} rc={r.returncode} ' + r.stdout[-300:].replace('\n', ' | '); break
    if out == 'nobuild': continue
    done += 1
    if out is None or ' ' in out:
        print(f'*** {out or "SURVIVED"} {fname}:{i+1} {what} [{time.time()-t0:.0f}s]\n  - {src[i]}\n  + {new}', flush=True)
    else:
        print(f'    {out} {fname}:{i+1} {what} [{time.time()-t0:.0f}s]', flush=True)
print('done', fname, flush=True)
