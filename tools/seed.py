"""Writes /verif/seeded/<id>/ from tools/seeds.d/*.py and tries each in a scratch copy of /repo.
usage: seed.py [--try] [ids...]     --try: the change is applied to /repo, built, the stable tests and the demo are run, and it is undone;
--check also runs the property's quick check"""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/w/seedrepo'
DEMO = '''#!/bin/bash
# builds the demonstration against the code in the current directory and runs it: 0 = as it should be
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
%s
'''
BUILD = 'clang++-18 -std=gnu++17 -O1 -w -include cstdint -include thread %s -I"$PWD/include" -I"$PWD/src/common" -I"$PWD/src/platforms/unix" "$d/demo.cpp" %s "$PWD/_build/libmaf.a" -lpthread -lrt -o "$t/demo" || exit 3\ncd "$t" && timeout 60 ./demo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def seeds():
    out = []
    for f in sorted(glob.glob(V + '/tools/seeds.d/*.py')):
        g = {}
        exec(compile(open(f).read(), f, 'exec'), g)
        out += g['SEEDS']
    return out


def main():
    args = sys.argv[1:]
    tryit = '--try' in args or '--check' in args
    check = '--check' in args
    ids = [a for a in args if not a.startswith('--')]
    if os.path.isdir(S):
        shutil.rmtree(S)
    sh('cp -a /repo %s' % S)
    if sh('git -C /repo status --short').stdout.strip():
        sys.exit('/repo is not clean')
    bad = 0
    for s in seeds():
        if ids and s['id'] not in ids:
            continue
        sh('git -C %s checkout -q -- .' % S)
        for f, a, b in s['edits']:
            p = S + '/' + f
            t = open(p).read()
            if t.count(a) != 1:
                print('%s: %d matches of the text to change in %s' % (s['id'], t.count(a), f))
                bad = 1
                break
            open(p, 'w').write(t.replace(a, b))
        else:
            d = V + '/seeded/' + s['id']
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run('git -C %s diff' % S, shell=True, stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
            open(d + '/demo.sh', 'w').write(DEMO % (BUILD % (s.get("flags", ""), " ".join("\"$PWD/" + x + "\"" for x in s.get("srcs", [])))))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            if tryit:
                r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
                sh('git -C /repo apply %s/patch.diff' % d)
                try:
                    b = sh('bash /opt/vp/build.sh')
                    t = sh('bash /opt/vp/test.sh /tmp/seed-tests.json').stdout.strip().split('\n')[-1] if b.returncode == 0 else 'BUILD FAILED ' + b.stdout[-800:]
                    r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
                    c = ''
                    if check:
                        r = sh('python3 %s/check.py %s quick' % (V, s['property']))
                        c = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in r.stdout else 'MISSED rc=%d' % r.returncode
                        c += ' ' + ((re.findall(r'^(?:assertion|[a-z-]+): .*', r.stdout, re.M) or [''])[0])[:90]
                finally:
                    sh('git -C /repo checkout -q -- .')
                ok = r0.returncode == 0 and r1.returncode != 0 and ', 0 failed' in t
                t += ' ' + c
                bad |= not ok
                print('%-28s %s without %d with %d  %s %s' % (s['id'], 'ok ' if ok else 'BAD', r0.returncode, r1.returncode, t, '' if ok else (r0.stdout + r1.stdout)[-1500:]))
            else:
                print(s['id'], 'written')
    shutil.rmtree(S)
    if tryit:
        sh('bash /opt/vp/build.sh')
    return bad


sys.exit(main())
