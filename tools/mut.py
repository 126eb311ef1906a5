"""Quick mutants: each is applied to a scratch copy of /repo and its property's quick check is run there.
usage: mut.py FILE.py [ids...]; FILE defines M = [(id, property, file, old, new)]"""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUT_DIR', '/tmp/w')
S, B = W + '/mutrepo', W + '/mutbuild'
g = {}
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), g)
ids = sys.argv[2:]
os.makedirs(W, exist_ok=True)
if os.path.isdir(S): shutil.rmtree(S)
subprocess.run(['cp', '-a', '/repo', S], check=True)
for i, props, f, a, b in g['M']:
    if ids and i not in ids: continue
    subprocess.run('git -C %s checkout -q -- .' % S, shell=True, check=True)
    edits = [(f, a, b)] if isinstance(f, str) else f
    ok = True
    for f2, a2, b2 in edits:
        t = open(S + '/' + f2).read()
        if t.count(a2) != 1:
            print('%-24s %d matches in %s: %r' % (i, t.count(a2), f2, a2[:60])); ok = False; break
        open(S + '/' + f2, 'w').write((g.get('PRELUDE', '') if not t.startswith(g.get('PRELUDE') or '\0') else '') + t.replace(a2, b2))
    if not ok: continue
    for prop in ([] if os.environ.get('DRY') else props.split()):
        t0 = time.time()
        e = dict(os.environ, MAF_REPO=S, VERIF_BUILD=B, VERIF_EVIDENCE=W + '/mutev')
        r = subprocess.run('python3 %s/check.py %s quick' % (V, prop), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        c = {0: 'MISSED', 1: 'CAUGHT'}.get(r.returncode, 'NOANSWER')
        m = re.findall(r'^(?:assertion|[a-z-]+): .*', r.stdout, re.M) or ([l for l in r.stdout.split('\n') if 'ERROR' in l or 'rror:' in l] if c == 'NOANSWER' else [''])
        print('%-24s %s %-8s %5.1fs %s' % (i, prop, c, time.time() - t0, (m or [''])[0][:110]), flush=True)
shutil.rmtree(S)
