#!/usr/bin/env python3
"""Decides one property: builds /repo's current sources to LLVM bitcode, executes the harness entries of
that property symbolically (engine/), replays every counterexample natively against the real code and
writes evidence/<ID>.json.   usage: check.py ID [quick|thorough]     check.py --replay ID FILE.cex"""
import sys, os, json, hashlib, subprocess, time, fcntl, re, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MAF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
sys.path.insert(0, V)
sys.path.insert(0, V + '/harness')
NCPU = os.cpu_count() or 4
CXX = ['clang++-18', '-std=c++17', '-w']
DEFS = ['-include', 'cstdint', '-include', 'thread', '-DMAF_MIN_ALLOWED_LOG_LEVEL=1', '-DMAF_STATIC_LIBRARY', '-I' + REPO + '/include',
        '-I' + REPO + '/src/platforms/unix', '-I' + REPO + '/src/common', '-I' + REPO + '/test', '-fdelayed-template-parsing',
        '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-I' + V]
BC = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-emit-llvm']


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def must(cmd, what):
    rc, out = sh(cmd)
    if rc:
        raise CheckError('%s failed: %s\n%s' % (what, ' '.join(cmd), out[-3000:]))


def hfiles(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def tree(d, exts=('.h', '.cpp', '.c', '.hpp', '.inl', '.cc', '.ipp', '.mpp')):
    r = []
    for root, ds, fs in os.walk(d):
        ds.sort()
        r += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return r


def ensure_engine():
    must(['bash', V + '/engine/build.sh', B], 'engine build')


def compile_cached(jobs):
    """jobs: list of (cmd without -o, out)"""
    todo = [(c, o) for c, o in jobs if not os.path.exists(o)]

    def one(j):
        c, o = j
        tmp = o + '.tmp%d' % os.getpid()
        rc, out = sh(c + ['-o', tmp])
        if rc:
            return (o, out)
        os.rename(tmp, o)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        return [r for r in ex.map(one, todo) if r]


def rt_build():
    k = hfiles(tree(V + '/rt') + [V + '/check.py'])
    d = B + '/rt-' + k
    os.makedirs(d, exist_ok=True)
    F = CXX + BC + ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-builtin', '-fno-access-control', '-c']
    jobs = [(F + [V + '/rt/rt_model.cpp'], d + '/rt_model.bc'), (F + [V + '/rt/rt_engine.cpp'], d + '/rt_engine.bc'), (F + [V + '/rt/rt_stream.cpp'], d + '/rt_stream.bc'), (F + ['-fno-inline', V + '/rt/rt_stream2.cpp'], d + '/rt_stream2.bc'),
            (['clang-18', '-O1', '-fno-builtin', '-w', '-emit-llvm', '-c', V + '/rt/rt_libc.c'], d + '/rt_libc.bc')]
    bad = compile_cached(jobs)
    if bad:
        raise CheckError('runtime model does not compile:\n' + bad[0][1][-3000:])
    return d


def harness_headers():
    return [f for f in tree(V + '/harness') if f.endswith('.h')] + [V + '/rt/sym.h']


def build(pid, spec, variant=None):
    """returns dir with linked module"""
    rk = hfiles(tree(REPO + '/include') + tree(REPO + '/src'))
    rd = B + '/repo-' + rk
    os.makedirs(rd, exist_ok=True)
    os.utime(rd)
    rt = rt_build()
    hsrc = V + '/harness/' + spec.get('harness', pid) + '.cpp'
    hk = hfiles([hsrc] + harness_headers())
    flags = spec.get('flags', [])
    fk = hashlib.sha256(json.dumps([CXX, DEFS, BC, flags]).encode()).hexdigest()[:8]
    srcs = spec.get('sources', [])
    hbc = rd + '/h-%s-%s-%s.bc' % (os.path.basename(hsrc), hk, fk)
    jobs = [(CXX + BC + DEFS + flags + ['-c', hsrc], hbc)]
    objs = []
    for s in srcs:
        o = rd + '/' + s.replace('/', '_') + '-' + fk + '.bc'
        objs.append(o)
        jobs.append((CXX + BC + DEFS + flags + ['-c', REPO + '/' + s], o))
    if not any(x.endswith('/Logger.cpp') for x in srcs):   # logging is off unless the logger itself is checked
        o = rd + '/logstub-%s-%s.bc' % (hfiles([V + '/harness/logstub.cpp']), fk)
        objs.append(o)
        jobs.append((CXX + BC + DEFS + flags + ['-c', V + '/harness/logstub.cpp'], o))
    bad = compile_cached(jobs)
    if bad:
        raise CheckError('does not compile: ' + bad[0][0] + '\n' + bad[0][1][-4000:])
    key = hashlib.sha256((rt + hbc + ''.join(objs)).encode()).hexdigest()[:16]
    base = rd + '/base-%s-%s.bc' % (pid, key)
    if not os.path.exists(base):
        tmp = base + '.tmp%d' % os.getpid()
        must(['llvm-link-18', hbc] + objs + ['-o', tmp], 'link')
        os.rename(tmp, base)
    return rd, rt, base, key


def with_rt(rd, rt, base, out):
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        must(['llvm-link-18', base, rt + '/rt_model.bc', rt + '/rt_engine.bc', rt + '/rt_stream.bc', rt + '/rt_stream2.bc', rt + '/rt_libc.bc', '-o', tmp], 'link')
        os.rename(tmp, out)
    return out


def instrument(base, out, yields):
    """atomics (and racing accesses listed in the file yields) become scheduling points"""
    cmd = [B + '/symex-instr', base, out] + ([yields] if yields else [])
    must(cmd, 'instrumentation')


def native_build(rd, rt, base, key, entry):
    """compiles the same module natively with the sanitizer; returns the replay binary"""
    exe = rd + '/native-%s-%s' % (key, entry)
    if os.path.exists(exe):
        return exe
    pre = rd + '/nat-%s' % key
    redef = pre + '.redef'
    rc, out = sh(['llvm-nm-18', rt + '/rt_model.bc'])
    with open(redef, 'w') as f:
        for l in out.splitlines():
            t = l.split()
            if len(t) == 3 and t[1] == 'T' and t[2].startswith('__wrap_'):
                f.write('%s %s\n' % (t[2][7:], t[2]))
    nbc = pre + '.asan.bc'
    must([B + '/symex-instr', '--native', base, nbc], 'native instrumentation')
    NAT = ['-O1', '-g1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer']
    N2 = CXX + ['-O1', '-g1', '-fno-access-control', '-c']
    bad = compile_cached([(['clang++-18'] + NAT + ['-Wno-override-module', '-c', '-x', 'ir', nbc], pre + '.raw.o'),
                          (N2 + [V + '/rt/rt_model.cpp'], rt + '/rt_model.o'), (N2 + [V + '/rt/rt_native.cpp'], rt + '/rt_native.o'),
                          (N2 + ['-DENTRY=' + entry, V + '/rt/ent.cpp'], pre + entry + '.ent.o')])
    if bad:
        raise CheckError('native build failed: ' + bad[0][1][-3000:])
    must(['llvm-objcopy-18', '--redefine-syms=' + redef, pre + '.raw.o', pre + '.o'], 'objcopy')
    must(['clang++-18', '-fsanitize=address', pre + '.o', rt + '/rt_model.o', rt + '/rt_native.o', pre + entry + '.ent.o', '-lpthread', '-o', exe], 'native link')
    return exe


def replay(exe, cex, hang=False):
    """(confirmed, text)"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:alloc_dealloc_mismatch=1:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1',
               UBSAN_OPTIONS='halt_on_error=1')
    try:
        r = subprocess.run([exe, cex], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90, env=env)
    except subprocess.TimeoutExpired as e:
        return True, 'native run did not finish'
    out = r.stdout.decode('utf8', 'replace')
    m = re.search(r'REPLAY (\w+): (.*)', out)
    if r.returncode == 1 and m and m.group(1) == 'VIOLATED':
        return True, out[-3000:]
    if r.returncode == 77 or r.returncode < 0:
        return True, ('exit %d\n' % r.returncode) + out[-4000:]
    return False, ('exit %d\n' % r.returncode) + out[-2000:]


def known_findings(pid):
    p = V + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('status') == 'known' and k['property'] == pid]


def run_entry(bc, e, cfg, outdir, jobs, tlimit, maxviol):
    out = '%s/%s.json' % (outdir, cfg['id'])
    cexdir = outdir + '/' + cfg['id']
    os.makedirs(cexdir, exist_ok=True)
    cmd = [B + '/symex', bc, '--entry', cfg['entry'], '--out', out, '--cexdir', cexdir, '--repo', REPO, '--time', str(tlimit), '--jobs', str(jobs), '--max-viol', str(maxviol)]
    for k, v in cfg['cfg'].items():
        cmd += ['--cfg', '%s=%d' % (k, v)]
    for k, v in cfg.get('opts', {}).items():
        cmd += ['--' + k, str(v)]
    t = time.time()
    rc, o = sh(cmd)
    if rc == 3 or not os.path.exists(out):
        return {'id': cfg['id'], 'crash': o[-2000:] or 'ended with status %d and no result' % rc, 'wall': time.time() - t}
    parts = [out] + [p for p in glob.glob(out + '.*')]
    R = {'id': cfg['id'], 'entry': cfg['entry'], 'cfg': cfg['cfg'], 'bounds': cfg.get('bounds', ''), 'covers_expected': cfg.get('covers', []), 'violations': [], 'functions': set(), 'samples': [], 'wall': 0}
    for k in ('covers', 'unsupported', 'incomplete'):
        R[k] = {}
    races = {}
    for p in parts:
        try:
            J = json.load(open(p))
        except Exception as ex:
            return {'id': cfg['id'], 'crash': 'unreadable result %s: %s %s' % (p, ex, o[-1500:]), 'wall': time.time() - t}
        for k in ('paths', 'forks', 'instructions', 'choices', 'asserts', 'asserts_symbolic', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'model_hits', 'solver_s', 'assume_killed'):
            R[k] = R.get(k, 0) + J.get(k, 0)
        R['solver_max_s'] = max(R.get('solver_max_s', 0), J.get('solver_max_s', 0))
        for k in ('covers', 'unsupported', 'incomplete'):
            for a, b in J[k].items():
                R[k][a] = R[k].get(a, 0) + b
        R['functions'] |= set(J['functions'])
        if len(R['samples']) < 6:
            R['samples'] += J['samples'][:3]
        for x in J.get('races', []):
            races[x['key']] = x
        for v in J['violations']:
            if not any((w['kind'], w['msg'], w['where']) == (v['kind'], v['msg'], v['where']) for w in R['violations']):
                R['violations'].append(v)
    R['races'] = list(races.values())
    R['wall'] = time.time() - t
    if os.environ.get('VERBOSE'):
        print(o[-3000:])
    return R


def configs(spec, tier, only=None):
    res = []
    for e in spec['entries']:
        if e.get('tier') and e['tier'] != tier:
            continue
        if only and not re.search(only, e['name']):
            continue
        cs = e.get(tier, e.get('quick', [{}]))
        if isinstance(cs, dict):
            cs = [cs]
        for i, c in enumerate(cs):
            cc = dict(e.get('cfg', {}))
            cc.update(c)
            res.append({'id': e['name'] + ('' if len(cs) == 1 else '-%d' % i), 'entry': e['name'], 'cfg': cc, 'bounds': e.get('bounds', ''), 'covers': e.get('covers', []) if i == 0 or e.get('covers_all') else [], 'opts': e.get('opts', {})})
    return res


def main():
    if sys.argv[1] == '--replay':
        pid, cex = sys.argv[2], sys.argv[3]
        from spec import SPEC
        ensure_engine()
        spec = SPEC[pid]
        rd, rt, base, key = build(pid, spec)
        ent = open(cex).readline().split()[1]
        y = cex + '.yields'
        ibase = rd + '/inst-replay-%s.bc' % hashlib.sha256((key + cex).encode()).hexdigest()[:12]
        instrument(base, ibase, y if os.path.exists(y) else None)
        ok, txt = replay(native_build(rd, rt, ibase, os.path.basename(ibase), ent), cex)
        print(txt)
        return 1 if ok else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]
    t0 = time.time()
    from spec import SPEC
    spec = SPEC[pid]
    ensure_engine()
    rd, rt, base, key = build(pid, spec)
    ib = rd + '/inst-%s.bc' % key
    if not os.path.exists(ib):
        instrument(base, ib + '.tmp', None)
        os.rename(ib + '.tmp', ib)
    bc = with_rt(rd, rt, ib, rd + '/all-%s.bc' % key)
    tb = time.time() - t0
    outdir = '%s/run-%s-%d' % (B, pid, os.getpid())
    os.makedirs(outdir)
    cfgs = configs(spec, tier, only)
    budget = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 3 * 3600))
    known = known_findings(pid)
    maxviol = 12
    conc = spec.get('conc', min(len(cfgs), 3))
    deadline = t0 + budget

    def go(c, mod=bc):
        left = max(5, deadline - time.time())
        return run_entry(mod, None, c, outdir, NCPU if conc <= 3 else max(2, NCPU // 2), left, maxviol)
    with ThreadPoolExecutor(max(1, conc)) as ex:
        results = list(ex.map(go, cfgs))
    # second phase: scheduling points at the racing accesses found in the first one
    builds = {c['id']: (ib, key, None) for c in cfgs}
    byid = {c['id']: c for c in cfgs}
    racy = [r for r in results if r.get('races')]
    if racy and not any(r.get('violations') for r in results):
        def second(r):
            c = dict(byid[r['id']])
            ys = set()
            tot = dict(r)
            for rnd in range(3):
                new = set()
                for x in r.get('races', []):
                    new |= set(x['instrs'])
                if new <= ys:
                    break
                ys |= new
                yf = outdir + '/%s-%d.yields' % (r['id'], rnd)
                with open(yf, 'w') as f:
                    f.write('\n'.join(sorted(ys)) + '\n')
                ib2 = outdir + '/%s-%d.inst.bc' % (r['id'], rnd)
                instrument(base, ib2, yf)
                bc2 = with_rt(rd, rt, ib2, outdir + '/%s-%d.all.bc' % (r['id'], rnd))
                cc = dict(c)
                cc['id'] = c['id'] + '-r%d' % rnd
                builds[cc['id']] = (ib2, '%s-%s-%d' % (key, r['id'], os.getpid() * 10 + rnd), yf)
                r = go(cc, bc2)
                if r.get('crash') or r.get('violations'):
                    break
            return r
        with ThreadPoolExecutor(max(1, conc)) as ex:
            results += list(ex.map(second, racy))
    rc = 0
    problems = []
    viols = []
    knownseen = {}
    hangs = skipped = 0
    for r in results:
        if r.get('crash'):
            problems.append('%s: engine failed: %s' % (r['id'], r['crash']))
            continue
        for v in r['violations']:
            ibx, kx, yf = builds[r['id']]
            if viols and (hangs >= 2 or time.time() - t0 > 600):
                skipped += 1  # the verdict stands already
                v.update(confirmed=False, replay='not replayed', entry=r['entry'])
                continue
            try:
                exe = native_build(rd, rt, ibx, kx, r['entry'])
                ok, txt = replay(exe, v['cex'])
            except CheckError as ex:
                ok, txt = False, str(ex)
            hangs += txt == 'native run did not finish'
            v['confirmed'] = ok
            v['replay'] = txt
            v['entry'] = r['entry']
            if yf:
                shutil.copy(yf, v['cex'] + '.yields')
            k = None
            for f in known:
                if f['entry'] == r['entry'] and re.search(f['match'], v['kind'] + ': ' + v['msg'] + ' @ ' + v['where']):
                    k = f
            if ok and k:
                knownseen[k['what']] = True
            elif ok:
                viols.append((r, v))
            else:
                problems.append('%s: counterexample not reproduced natively: %s: %s at %s\n%s' % (r['id'], v['kind'], v['msg'], v['where'], txt[-1200:]))
        for k, n in r['unsupported'].items():
            problems.append('%s: not encodable: %s (%d paths)' % (r['id'], k, n))
        for k, n in r['incomplete'].items():
            problems.append('%s: incomplete: %s (%d)' % (r['id'], k, n))
        if r['unknown']:
            problems.append('%s: solver answered unknown %d times' % (r['id'], r['unknown']))
        miss = [c for c in r['covers_expected'] if not r['covers'].get(c)]
        if miss:
            problems.append('%s: expected behaviour never reached: %s' % (r['id'], ', '.join(miss)))
    if skipped:
        problems.append('%d further counterexamples not replayed' % skipped)
    for w in sorted(knownseen):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    repdir = '%s/replay/%s' % (B, pid)
    if viols:
        os.makedirs(repdir, exist_ok=True)
    for r, v in viols[:5]:
        dst = '%s/%s_%s' % (repdir, r['id'], os.path.basename(v['cex']))
        shutil.copy(v['cex'], dst)
        if os.path.exists(v['cex'] + '.yields'):
            shutil.copy(v['cex'] + '.yields', dst + '.yields')
        v['file'] = dst
        print('%s: %s\n    at %s' % (v['kind'], v['msg'], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, dst))
        rc = 1
    if rc == 0 and problems:
        rc = 2
    for p in problems[:12]:
        print(('ERROR ' if rc == 2 else 'note ') + p)
    wall = time.time() - t0
    ev = evidence(pid, spec, tier, results, viols, problems, wall, tb)
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % pid, 'w') as f:
            json.dump(ev, f, indent=1)
    for r in results:
        if not r.get('crash'):
            print('%-28s paths %-7d queries %-7d (sat %d unsat %d) solver %.1fs wall %.1fs instr %d asserts %d/%d races %d' % (r['id'], r['paths'], r['queries'], r['sat'], r['unsat'], r['solver_s'], r['wall'], r['instructions'], r['asserts'], r['asserts_symbolic'], len(r['races'])))
            if os.environ.get('VERBOSE'):
                print('     covers', r['covers'], 'races', [(x['key']) for x in r['races']])
    print('%s %s: %s in %.1fs (build %.1fs)' % (pid, tier, {0: 'held', 1: 'VIOLATED', 2: 'no answer'}[rc], wall, tb))
    if not os.environ.get('KEEP'):
        shutil.rmtree(outdir, ignore_errors=True)
    prune()
    return rc


def evidence(pid, spec, tier, results, viols, problems, wall, tb):
    ok = [r for r in results if not r.get('crash')]
    fn = sorted(set().union(*[r['functions'] for r in ok])) if ok else []
    tot = lambda k: sum(r[k] for r in ok)
    ents = [{'entry': r['id'], 'bounds': r['bounds'], 'parameters': r['cfg'], 'paths': r['paths'], 'queries': r['queries'], 'sat': r['sat'], 'unsat': r['unsat'], 'unknown': r['unknown'],
             'assertions_decided': r['asserts'], 'assertions_with_symbolic_operands': r['asserts_symbolic'], 'solver_s': round(r['solver_s'], 2), 'slowest_query_s': round(r['solver_max_s'], 2),
             'schedule_and_case_splits': r['choices'], 'witnesses_reached': r['covers'], 'wall_s': round(r['wall'], 1),
             'racing_access_pairs': [x['key'] for x in r['races']][:20]} for r in ok]
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {'states': tot('forks') + tot('paths') + tot('choices'), 'transitions': tot('instructions'), 'traces_validated_against_impl': len([1 for r in ok for v in r['violations'] if v.get('confirmed')]),
                       'samples': [s for r in ok for s in r['samples']][:20] or ['(no symbolic input)'],
                       'method': 'symbolic execution of LLVM IR compiled from /repo on this run; every branch, memory access and assertion over symbolic operands decided by Z3',
                       'paths': tot('paths'), 'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 2),
                       'assertions_decided': tot('asserts'), 'functions_encoded_count': len(fn), 'functions_encoded': fn[:400], 'sources_encoded': spec.get('sources', []), 'entries': ents, 'problems': problems[:20]},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viols)}
    return ev


def prune():
    """old module caches are dropped (the newest three stay)"""
    ds = sorted(glob.glob(B + '/repo-*'), key=os.path.getmtime, reverse=True)
    for d in ds[4:]:
        shutil.rmtree(d, ignore_errors=True)
    now = time.time()
    for d in glob.glob(B + '/run-*'):
        if now - os.path.getmtime(d) > 4 * 3600:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR', e)
        sys.exit(2)
