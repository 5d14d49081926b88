#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled source.

  check.py ID [--tier quick|thorough] [--jobs N] [--only SUBSTR] [--keep] [-v]

Compiles the current sources of /repo and the property's harnesses to LLVM bitcode, explores them with
build/symex (every branch and every assertion is decided by an SMT solver over all values of the
symbolic inputs), replays counterexamples and samples of the explored paths on a native build of the
same sources, and writes evidence/ID.json.  Exit 0: held; 1: VIOLATION; 2: no answer.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PKG = os.path.join(REPO, 'rmw_dds_common')
B = os.path.join(V, 'build')
sys.path.insert(0, V)
import plan  # noqa: E402

CXX = ['clang++', '-std=c++17', '-w']
SYMF = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-D__NO_INLINE__',
        '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=undefined',
        '-fsanitize-trap=undefined', '-fno-sanitize=vptr,function,nonnull-attribute', '-emit-llvm']
NATIVE = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
}
WRAP = ['-Wl,--wrap=' + f for f in (
    ['pthread_mutex_' + x for x in ('lock', 'unlock', 'trylock')] +
    ['pthread_rwlock_' + x for x in ('rdlock', 'wrlock', 'tryrdlock', 'trywrlock', 'unlock')] +
    ['_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', '_ZNSt18condition_variable10notify_oneEv',
     '_ZNSt18condition_variable10notify_allEv', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_once', 'sched_yield', 'nanosleep', 'usleep',
     'clock_gettime', 'time', '_ZNSt6chrono3_V212steady_clock3nowEv', '_ZNSt6chrono3_V212system_clock3nowEv'])]
THREADED = ('conc.cpp', 'ctxconc.cpp', 'pure.cpp') # harnesses with threads
VERBOSE = False


def log(*a):
    if VERBOSE:
        print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Fail(Exception):
    pass


def run(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def must(cmd, what, timeout=600):
    rc, o, e = run(cmd, timeout)
    if rc:
        raise Fail('%s failed (%d): %s' % (what, rc, (e or o)[-3000:]))


class Once:
    """Builds each artefact once, from whichever worker asks first."""

    def __init__(self):
        self.lock, self.fut = threading.Lock(), {}

    def get(self, key, fn):
        with self.lock:
            f = self.fut.get(key)
            mine = f is None
            if mine:
                f = self.fut[key] = cf.Future()
        if mine:
            try:
                f.set_result(fn())
            except BaseException as e:  # noqa
                f.set_exception(e)
        return f.result()


class Build:
    def __init__(self, work):
        self.w, self.once = work, Once()
        must([sys.executable, os.path.join(V, 'model/genmsg.py'), os.path.join(PKG, 'msg'),
              os.path.join(work, 'gen/rmw_dds_common/msg')], 'message generation')
        self.inc = ['-I' + os.path.join(V, 'model'), '-I' + os.path.join(V, 'model/include'),
                    '-I' + os.path.join(work, 'gen'), '-I' + os.path.join(PKG, 'include'),
                    '-I' + os.path.join(PKG, 'src'), '-I' + os.path.join(V, 'harness')]

    def flags(self, j):
        return (['-DNDEBUG'] if j['ndebug'] else []) + ['-D' + d for d in j['defines']]

    def tu(self, src, j, mode):
        """mode: sym or a native variant."""
        fl = self.flags(j)
        threaded = mode != 'sym' and j['harness'] in THREADED
        key = (src, tuple(fl), mode, threaded)

        def go():
            n = '%s.%s.%x' % (os.path.basename(src), mode, abs(hash(key)) & 0xffffffff)
            out = os.path.join(self.w, n + ('.bc' if mode == 'sym' else '.o'))
            f = SYMF if mode == 'sym' else ['-g', '-O1', '-D_GLIBCXX_ASSERTIONS'] + NATIVE[mode]
            if threaded:
                # the schedule also switches before atomic accesses
                must(CXX + f + fl + self.inc + ['-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', src, '-o', out + '.ll'],
                     'compiling ' + src)
                t = open(out + '.ll').read().split('\n')
                at = re.compile(r'^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg)\b')
                t = [('  call void @vp_atomic()\n' if at.match(x) and '@_ZGV' not in x else '') + x for x in t]
                open(out + '.ll', 'w').write('\n'.join(t + ['declare void @vp_atomic()', '']))
                must(CXX[:1] + CXX[2:] + f + ['-c', out + '.ll', '-o', out], 'compiling the intermediate code of ' + src)
                return out
            must(CXX + f + fl + self.inc + ['-c', src, '-o', out], 'compiling ' + src)
            return out
        return self.once.get(key, go)

    def srcs(self, j):
        return [os.path.join(PKG, 'src', s) for s in j['srcs']] + [os.path.join(V, 'harness', j['harness'])]

    def bitcode(self, j):
        key = ('bc', tuple(self.srcs(j)), tuple(self.flags(j)), j['opt'])

        def go():
            parts = [self.tu(s, j, 'sym') for s in self.srcs(j)]
            out = os.path.join(self.w, 'h%x' % (abs(hash(key)) & 0xffffffffffff))
            must(['llvm-link-18'] + parts + [os.path.join(B, 'rt.bc'), '-o', out + '.l.bc'], 'linking bitcode')
            pipe = j['opt'] if '(' in j['opt'] else 'function(%s)' % j['opt']
            must(['opt-18', '-passes=internalize,globaldce,' + pipe,
                  '-internalize-public-api-list=vp_main,vp_rt_throw_bad_alloc', out + '.l.bc', '-o', out + '.bc'], 'opt')
            return out + '.bc'
        return self.once.get(key, go)

    def native(self, j, variant):
        key = ('nat', variant, tuple(self.srcs(j)), tuple(self.flags(j)))  # the harness says whether there are threads

        def go():
            parts = [self.tu(s, j, variant) for s in self.srcs(j)]
            out = os.path.join(self.w, 'n%x' % (abs(hash(key)) & 0xffffffffffff))
            must(CXX + NATIVE[variant] + parts + [os.path.join(B, 'native.%s.o' % variant),
                 os.path.join(B, 'ros.%s.o' % variant), '-o', out, '-lpthread'] + WRAP, 'native link')
            return out
        return self.once.get(key, go)


def inputs_text(v, params):
    o = ['p %s %d' % (k, x) for k, x in params.items()]
    for name, val, w in v['inputs']:
        x = int(val)
        if x >= 1 << 63:
            x -= 1 << 64
        o.append('i %s %d' % (name, x))
    o += ['s %d' % t for t in v['sched']]
    return '\n'.join(o) + '\n'


SAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1',
       'UBSAN_OPTIONS': 'exitcode=77:print_stacktrace=0', 'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1'}


def native_run(binary, inputs, timeout=30, extra=None, wrap=None):
    scratch = tempfile.mkdtemp(prefix='vp', dir=os.environ.get('TMPDIR', '/tmp'))
    env = dict(os.environ, VP_SCRATCH=scratch, **SAN)
    env.update(extra or {})
    try:
        return run((wrap or []) + [binary, inputs], timeout, env, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confirms(kind, rc, out, err):
    if rc in (0, 11, 14, 2):
        return None
    if rc == 10:
        m = re.search(r'CHECKFAIL (.*)', out)
        return 'check failed: ' + (m.group(1) if m else '?')
    if rc == 12:
        return 'deadlock'
    if rc == 13:
        return 'uncaught exception'
    if rc == 124:
        return 'does not terminate'
    if rc == 66:
        return 'ThreadSanitizer: ' + (re.search(r'WARNING: ThreadSanitizer: (.*)', err) or [0, 'report'])[1]
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*|terminate called[^\n]*)', err)
    return 'exit %d %s' % (rc, m.group(1) if m else err.strip()[-200:])


def reproduce(bld, j, v, path):
    """Replays a counterexample on the native build.  Returns what went wrong there, or None."""
    open(path, 'w').write(inputs_text(v, j['params']))
    if v['kind'] == 'race':
        b = bld.native(j, 'tsan')
        rc, o, e = native_run(b, path, 30, {'VP_QUIET': '1'})
        r = confirms('race', rc, o, e)
        if r and rc != 124:
            return r
        for k in range(60):
            rc, o, e = native_run(b, path, 30, {'VP_FREE_RUN': str(k + 1), 'VP_QUIET': '1'})
            r = confirms('race', rc, o, e)
            if r:
                return r
        return None
    b = bld.native(j, 'asan')
    rc, o, e = native_run(b, path)
    r = confirms(v['kind'], rc, o, e)
    if r:
        return r
    if v['kind'] in ('memory', 'ub', 'leak', 'check'):
        b = bld.native(j, 'plain')
        rc, o, e = native_run(b, path, 120, {'VP_QUIET': '1'},
                              ['valgrind', '-q', '--error-exitcode=99'] +
                              (['--leak-check=full', '--errors-for-leak-kinds=definite,indirect'] if v['kind'] == 'leak' else ['--leak-check=no']))
        r = confirms(v['kind'], rc, o, e)
        if r:
            m = re.search(r'==\d+== (.*)', e)
            return 'valgrind: ' + (m.group(1) if rc == 99 and m else r)
    return None


def validate(bld, j, samples):
    """Runs explored paths natively: same observations, same end.  Returns (#agreeing, problems, violations)."""
    ok, bad, viol = 0, [], []
    b = bld.native(j, 'asan')
    for i, s in enumerate(samples):
        p = os.path.join(bld.w, 's_%s_%d.in' % (re.sub(r'\W', '_', j['name']), i))
        open(p, 'w').write(inputs_text(s, j['params']))
        rc, o, e = native_run(b, p)
        if rc != 0:
            c = confirms('check', rc, o, e)
            if c:
                viol.append((s, c))
            else:
                bad.append('%s sample %d: native run ended with %d: %s' % (j['name'], i, rc, (o + e)[-500:]))
            continue
        nat = [tuple(x.split(' ', 2)[1:]) for x in o.splitlines() if x.startswith('OBS ')]
        sym = [tuple(x) for x in s['obs']]
        if nat != sym:
            d = next((k for k in range(max(len(nat), len(sym))) if nat[k:k + 1] != sym[k:k + 1]), 0)
            bad.append('%s sample %d: observation %d differs: native %s, symbolic %s' % (
                j['name'], i, d, nat[d:d + 1], sym[d:d + 1]))
        else:
            ok += 1
    return ok, bad, viol


def cross_check(ddir, budget):
    """Re-decides recorded queries with two other solvers."""
    n, bad, t0 = 0, [], time.time()
    for f in sorted(x for x in os.listdir(ddir) if x.startswith('q')):
        if time.time() - t0 > budget:
            break
        p = os.path.join(ddir, f)
        want = re.search(r'status (\w+)', open(p).read(200)).group(1)
        for s in (['cvc5', '--tlimit=20000', p], ['z3-new', '-T:20', p]):
            rc, o, e = run(s, 40)
            a = o.split()
            if '(error' in o:
                bad.append('%s: %s' % (f, o[:200]))
            elif a and a[0] in ('sat', 'unsat'):
                n += 1
                if a[0] != want:
                    bad.append('%s: %s says %s, expected %s' % (f, s[0], a[0], want))
    return n, bad


def run_job(bld, j, tier):
    t0 = time.time()
    bc = bld.bitcode(j)
    stem = os.path.join(bld.w, 'j_' + re.sub(r'\W', '_', j['name']))
    out = stem + '.json'
    cmd = [os.path.join(B, 'symex'), '--repo', PKG, '--out', out, '--time', str(j['time']), '--mem', str(j['mem']),
           '--viol', str(j['viol']), '--samples', str(j['samples']), '--atomic-switches', str(j['atomics']), '--steps', str(j['steps']),
           '--solver-timeout', str(j['solver_timeout'])]
    if j['leaks']:
        cmd.append('--leaks')
    if tier == 'thorough':
        ddir = stem + '.dump'
        os.makedirs(ddir, exist_ok=True)
        cmd += ['--dump', ddir, '--dump-max', '12']
    for k, x in j['params'].items():
        cmd += ['--param', '%s=%d' % (k, x)]
    rc, o, e = run(cmd + [bc], j['time'] * 1.5 + 60)
    if rc or not os.path.exists(out):
        return j, None, 'symex ended with %d: %s' % (rc, (o + e)[-1500:]), time.time() - t0
    r = json.load(open(out))
    log('%-40s %6.1fs paths %d queries %d/%.1fs %s %s' % (
        j['name'], r['wall'], r['paths'], r['solver']['smt'], r['solver']['seconds'],
        'complete' if r['complete'] else 'INCOMPLETE ' + r['why'], ' '.join(v['kind'] + ': ' + v['msg'] for v in r['violations'])))
    log('      witnesses:', ', '.join(sorted(r['covers'])), '' if not r['errors'] else '  errors %s' % r['errors'])
    return j, r, None, time.time() - t0


def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    global VERBOSE, T0
    T0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    VERBOSE = a.v
    pid, tier = a.id, a.tier
    must(['bash', os.path.join(V, 'tools/setup.sh')], 'setup', 1700)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='run.%s.' % pid, dir=B)
    try:
        rc = check(pid, tier, a, work)
    except Fail as e:
        print('NO ANSWER property=%s %s' % (pid, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, a, work):
    jobs = plan.jobs(pid, tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j['name']]
    kn = known(pid)
    for j in jobs:
        j['viol'] = 1 + len(kn)
    bld = Build(work)
    ev = dict(states=0, transitions=0, paths=0, forks=0, assertions=0, assertions_symbolic=0, schedule_points=0)
    sol = dict(asked=0, smt=0, sat=0, unsat=0, unknown=0, seconds=0.0, slowest=0.0)
    problems, candidates, samples, fn, seen, missed, joblist = [], [], [], set(), set(), set(), []
    validated = cross = sides = sides_all = 0
    confirmed, knownhit = [], []
    ends = {}
    stop = threading.Event()

    def work_one(j):
        if stop.is_set():
            return j, None, 'skipped', 0
        res = run_job(bld, j, tier)
        r = res[1]
        out = dict(viol=[], bad=[], ok=0, unc=[])
        if r:
            for k, v in enumerate(r['violations']):
                hit = next((t for rx, t in kn if rx.search(v['msg'])), None)
                if hit:
                    knownhit.append(hit)
                    continue
                p = os.path.join(work, 'c_%s_%d.in' % (re.sub(r'\W', '_', j['name']), k))
                c = reproduce(bld, j, v, p)
                if c:
                    out['viol'].append((v, c, p))
                else:
                    out['unc'].append(v)
            if r['samples'] and not out['viol']:
                ok, bad, viol = validate(bld, j, r['samples'][:j['validate']])
                out['ok'], out['bad'] = ok, bad
                for s, c in viol:
                    if any(rx.search(c) for rx, _ in kn):
                        continue
                    p = os.path.join(work, 'c_%s_v.in' % re.sub(r'\W', '_', j['name']))
                    open(p, 'w').write(inputs_text(s, j['params']))
                    s['kind'], s['msg'], s['loc'] = 'native', 'found when an explored path was run natively', '?'
                    out['viol'].append((s, c, p))
            if out['viol']:
                stop.set()
        return res + (out,)

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        results = list(ex.map(work_one, sorted(jobs, key=lambda j: -j['time'])))
    skipped = 0
    for res in results:
        j, r, err = res[:3]
        if err == 'skipped':
            skipped += 1
            continue
        if err:
            problems.append(j['name'] + ': ' + err)
            continue
        out = res[4]
        ev['states'] += r['states']; ev['transitions'] += r['steps']; ev['paths'] += r['paths']
        ev['forks'] += r['forks']; ev['assertions'] += r['checks']; ev['assertions_symbolic'] += r['checks_symbolic']
        ev['schedule_points'] += r['sched_points']
        for k in ('asked', 'smt', 'sat', 'unsat', 'unknown', 'seconds'):
            sol[k] += r['solver'][k]
        sol['slowest'] = max(sol['slowest'], r['solver']['max'])
        fn |= set(r['functions']); seen |= set(r['repo_lines_seen']); missed |= set(r['repo_lines_missed'])
        sides += r['branch_sides']; sides_all += r['branch_sides_total']
        for k, n in r['ends'].items():
            ends[k] = ends.get(k, 0) + n
        joblist.append(dict(job=j['name'], harness=j['harness'], params=j['params'], bounds=j['bounds'],
                            complete=r['complete'], paths=r['paths'], queries=r['solver']['smt'],
                            solver_s=round(r['solver']['seconds'], 2), wall_s=round(r['wall'], 2),
                            witnesses=r['covers']))
        validated += out['ok']
        problems += out['bad']
        confirmed += [(j, v, c, p) for v, c, p in out['viol']]
        for v in out['unc']:
            problems.append('%s: counterexample not reproduced natively: %s: %s at %s' % (j['name'], v['kind'], v['msg'], v['loc']))
        if not r['complete'] and not (r['why'] == 'stopped at violation'):
            problems.append('%s: exploration incomplete: %s %s' % (j['name'], r['why'], json.dumps(r['errors'])[:600]))
        if sol['unknown']:
            problems.append(j['name'] + ': the solver gave up on a query')
        if not r['paths'] and not out['viol']:
            problems.append(j['name'] + ': vacuous: no path satisfies the assumptions')
        for c in j['covers']:
            if c not in r['covers'] and not out['viol']:
                problems.append('%s: vacuous: witness "%s" was not reached' % (j['name'], c))
        for s in r['samples'][:2]:
            samples.append(dict(job=j['name'], inputs={n: int(x) for n, x, w in s['inputs'][:40]}, schedule=s['sched'][:40],
                                observed=s['obs'][:10]))
        if tier == 'thorough':
            d = os.path.join(work, 'j_' + re.sub(r'\W', '_', j['name']) + '.dump')
            if os.path.isdir(d) and os.listdir(d):
                n, bad = cross_check(d, 60)
                cross += n
                problems += ['%s: solvers disagree: %s' % (j['name'], x) for x in bad]
    wall = time.time() - T0
    entry = plan.PROPS[pid]
    e = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
             coverage=dict(ev, traces_validated_against_impl=validated, samples=samples[:12],
                           functions_encoded=sorted(x[:160] for x in fn), repo_lines_encoded=len(seen),
                           repo_branch_sides_taken=sides, repo_branch_sides=sides_all,
                           queries_discharged=sol['smt'], queries_sat=sol['sat'], queries_unsat=sol['unsat'],
                           queries_unknown=sol['unknown'], decided_without_solver_call=sol['asked'] - sol['smt'],
                           solver_seconds=round(sol['seconds'], 2), slowest_query_s=round(sol['slowest'], 3),
                           answers_confirmed_by_other_solvers=cross, path_ends=ends, jobs=joblist, jobs_skipped=skipped,
                           exhaustive=not problems and not confirmed,
                           rule='states: symbolic states; transitions: instructions executed symbolically; exhaustive '
                                'within the bounds listed per job'),
             assumptions=plan.ASSUMPTIONS + entry.get('assumptions', []), wall_s=round(wall, 2), violations=len(confirmed))
    json.dump(e, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for t in sorted(set(knownhit)):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if confirmed:
        rd = os.path.join(B, 'replays')
        os.makedirs(rd, exist_ok=True)
        for n, (j, v, c, p) in enumerate(confirmed):
            dst = os.path.join(rd, '%s.%d.in' % (pid, n))
            shutil.copy(p, dst)
            print('%s: %s: %s (at %s; %s); native replay: %s' % (pid, v['kind'], v['msg'], v['loc'], j['name'], c))
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        return 1
    if problems:
        for p in problems[:20]:
            print('NO ANSWER property=%s %s' % (pid, p))
        return 2
    print('HELD property=%s tier=%s jobs=%d paths=%d queries=%d solver=%.1fs wall=%.1fs' % (
        pid, tier, len(joblist), ev['paths'], sol['smt'], sol['seconds'], wall))
    return 0


if __name__ == '__main__':
    main()
