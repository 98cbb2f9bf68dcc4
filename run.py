#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: build the property's harnesses from /repo's working tree,
run them, judge, write evidence/<property>.json.  Exit 0: held on everything explored.
Exit 1 + 'VIOLATION property=<id> replay=<path>': broken.  Exit 2: the check itself failed."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import PROPS, SOURCES  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 4))
QUICK_FACTOR = 3 # the case counts of the jobs are those of a run for every change, times this
WALL_LIMIT = {'quick': 640, 'thorough': 6 * 3600}

INCLUDES = ['%s/harness/sdk' % HERE, '%s/harness/common' % HERE, '%s/harness/shim' % HERE,
            REPO + '/core/modules/core/include', REPO + '/core/modules/mem_mdlw/include',
            REPO + '/core/modules/socket_mdlw/include', REPO + '/core/modules/zmq_mdlw/include',
            REPO + '/serialization/modules/serialization/include',
            REPO + '/high_performance/modules/high_performance/include',
            REPO + '/state_machine/modules/state_machine/include',
            REPO + '/state_machine/modules/json_conf/include',
            '/usr/include/concurrentqueue/moodycamel']
BASE = ['-std=c++17', '-g1', '-w', '-faligned-new', '-DHAS_EPOLL', '-fno-strict-overflow', '-fno-omit-frame-pointer',
        '-D_GLIBCXX_ASSERTIONS', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_SHARED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-pthread']
# -fno-inline and an ordinary-inline _GLIBCXX_ALWAYS_INLINE keep every std::atomic/queue/mutex
# call a function of its own, hence a schedule-noise point.
COV = ['-fsanitize-coverage=edge,trace-pc-guard', '-fno-inline', '-D_GLIBCXX_ALWAYS_INLINE=inline']
VARIANTS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + COV,
    # g++: clang turns std::atomic<under-aligned struct> into libatomic calls TSan cannot see
    'tsan': ['-O1', '-fsanitize=thread', '-fsanitize-coverage=trace-pc', '-fno-inline', '-D_GLIBCXX_ALWAYS_INLINE=inline'],
    'noise': ['-O1'] + COV,
    'fast': ['-O2'],
}
CXX = {'tsan': 'g++'}
LINK = {'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread'], 'noise': [], 'fast': []}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=67:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1:'
                    'strict_init_order=1:allocator_may_return_null=1:max_allocation_size_mb=2048',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=67',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:die_after_fork=0',
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class CheckError(Exception):
    pass


def build(harnesses, bdir):
    """harnesses: set of (name, variant) -> {key: binary}.  Every object is rebuilt."""
    inc = sum([['-I', i] for i in INCLUDES], [])
    objs, cmds = {}, {}
    def add(src, tag, flags):
        o = os.path.join(bdir, re.sub(r'[^A-Za-z0-9]', '_', src)[-80:] + '.' + tag + '.o')
        cmds[o] = [CXX.get(tag.split('_')[0], 'clang++'), '-c', src, '-o', o] + BASE + inc + flags
        return o
    common = [add(HERE + '/harness/common/vh.cpp', 'plain', ['-O1']),
              add(HERE + '/harness/common/vh_noise.cpp', 'plain', ['-O1'])]
    links = {}
    for name, variant in sorted(harnesses):
        spec = SOURCES[name]
        flags = VARIANTS[variant] + spec.get('flags', []) + spec.get('flags_' + variant, [])
        ftag = variant + ('_' + name if spec.get('flags') or spec.get('flags_' + variant) else '')
        os_ = [add(HERE + '/harness/' + name + '.cpp', ftag, flags)]
        for s in spec.get('repo', []):
            os_.append(add(REPO + '/' + s, ftag, flags))
        out = os.path.join(bdir, name + '.' + variant)
        links[(name, variant)] = (out, [CXX.get(variant, 'clang++'), '-o', out] + os_ + common + LINK[variant] + spec.get('wrap', []) +
                                  ['-pthread', '-rdynamic', '-lspdlog', '-lfmt', '-latomic'] + spec.get('libs', []))
    def one(c):
        r = sh(c)
        if r.returncode:
            raise CheckError('build failed: %s\n%s' % (' '.join(c), r.stdout[:1800]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, cmds.values()))
        list(ex.map(one, [l[1] for l in links.values()]))
    return {k: v[0] for k, v in links.items()}


FRAME = re.compile(r'^\s*#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.*?)\s+(/\S+?)(?::\d+)*(?:\s|$)')


def classify(rc, err, out, variant, harness, scenario):
    """-> (kind, key, detail); kind in ok|violation|inconclusive|error"""
    if out and out.get('status') == 'ok' and rc == 0:
        return 'ok', '', ''
    if rc == 10 or rc == 40:
        return 'violation', (out or {}).get('key') or 'unknown', (out or {}).get('detail', err[-2000:])
    if rc == 41 or rc == 'timeout':
        return 'inconclusive', (out or {}).get('key') or 'timeout:' + scenario, err[-2000:]
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', err) or re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err) \
        or re.search(r'runtime error: (.*)', err) or re.search(r"ThreadSanitizer:(DEADLYSIGNAL)|Assertion '(.*)' failed", err) \
        or re.search(r'terminate called (.*)', err)
    what = next((g for g in m.groups() if g), 'crash') if m else 'crash rc=%s' % rc
    if rc == -9 and not m:
        return 'inconclusive', 'killed:' + scenario, 'killed by the out-of-memory guard'
    if 'FATAL: ThreadSanitizer' in err and not m:
        return 'error', 'tsan-runtime', err[-2000:]
    frames = []
    for line in err.splitlines():
        f = FRAME.match(line)
        if f and f.group(2).startswith(REPO + '/'):
            fn = f.group(1)
            for _ in range(6):
                fn = re.sub(r'<[^<>]*>|\([^()]*\)', '', fn)
            frames.append(os.path.basename(f.group(2)) + ':' + fn.replace(' const', '').split('::')[-1].split(' ')[-1])
    what = re.sub(r'0x[0-9a-f]+', 'ADDR', what)[:80]
    key = '%s:%s' % (what, ','.join(dict.fromkeys(frames[:6])) or 'no-repo-frame')
    if rc == 2 and not m:
        return 'error', 'usage', err[-2000:]
    return 'violation', key, err[:6000]


class Runner:
    def __init__(self, prop, tier, seed, bins, rdir, deadline):
        self.prop, self.tier, self.seed, self.bins, self.rdir, self.deadline = prop, tier, seed, bins, rdir, deadline
        self.lock = threading.Lock()
        self.n = 0
        self.stop = False

    def exec(self, harness, variant, scenario, first, cases, timeout):
        with self.lock:
            self.n += 1
            tag = '%s/%d' % (self.rdir, self.n)
        scratch = tag + '.d'
        os.makedirs(scratch)
        env = dict(os.environ, TMPDIR=scratch, VH_SCRATCH=scratch, **ENV)
        cmd = [self.bins[(harness, variant)], '--scenario', scenario, '--seed', str(self.seed), '--first', str(first),
               '--cases', str(cases), '--tier', self.tier, '--out', tag + '.json']
        t0 = time.time()
        with open(tag + '.err', 'w+b') as e:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = 'timeout'
            e.seek(0)
            err = e.read(400000).decode('utf8', 'replace')
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        try:
            out = json.load(open(tag + '.json'))
        except Exception:
            out = None
        shutil.rmtree(scratch, ignore_errors=True)
        kind, key, detail = classify(rc, err, out, variant, harness, scenario)
        return dict(kind=kind, key=key, detail=detail, out=out, rc=rc, err=err, cmd=cmd, wall=time.time() - t0,
                    variant=variant, scenario=scenario, harness=harness, first=first, cases=cases)

    def job(self, j):
        """Run one shard; an inconclusive result is re-run (twice) before it is given up on."""
        left = self.deadline - time.time()
        if self.stop or left < 5:
            return None
        r = None
        for attempt in range(3):
            left = self.deadline - time.time()
            if left < 5:
                break
            r = self.exec(j['harness'], j['variant'], j['scenario'], j['first'], j['cases'], min(left, j.get('timeout', 5400)))
            if r['kind'] != 'inconclusive':
                break
        if r and r['kind'] == 'violation':
            self.stop = self.stop or not j.get('known')
        return r


def load_known():
    known = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    t0 = time.time()
    scale = float(os.environ.get('VH_SCALE', '1'))
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'build') if os.path.isdir(HERE + '/build') else
                            (os.makedirs(HERE + '/build', exist_ok=True) or HERE + '/build'))
    known = [k for k in load_known() if k[0] == prop]
    try:
        jobs = []
        for j in spec['jobs']:
            harness, variant, scenario, nq = j[:4]
            nt = j[4] if len(j) > 4 else nq * 25
            total = max(1, int((nq * QUICK_FACTOR if tier == 'quick' else nt) * scale))
            shards = j[5] if len(j) > 5 else (2 if tier == 'quick' else 8)
            shards = max(1, min(shards, total))
            per = (total + shards - 1) // shards
            for k in range(shards):
                jobs.append(dict(harness=harness, variant=variant, scenario=scenario, first=k * per, cases=per))
        bins = build({(j['harness'], j['variant']) for j in jobs}, work)
        tb = time.time() - t0
        rdir = os.path.join(work, 'run')
        os.makedirs(rdir)
        R = Runner(prop, tier, seed, bins, rdir, t0 + WALL_LIMIT[tier])
        # spread the scenarios so that the long ones do not all come last
        par = int(os.environ.get('VH_JOBS', JOBS))
        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(R.job, jobs))
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(2)
    done = [r for r in results if r]
    ok = [r for r in done if r['kind'] == 'ok']
    viol = [r for r in done if r['kind'] == 'violation']
    err = [r for r in done if r['kind'] == 'error']
    inc = [r for r in done if r['kind'] == 'inconclusive']
    real, shown = [], set()
    for r in viol:
        hit = next((k for k in known if k[1] == r['key']), None)
        if hit:
            if hit[1] not in shown:
                shown.add(hit[1])
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[2]))
        else:
            real.append(r)
    distinct, inter, samples, counters, per_job = set(), set(), [], {}, {}
    evals = nontriv = 0
    edges = {}
    for r in ok:
        o = r['out']
        evals += o['done']
        nontriv += o['nontrivial']
        distinct.update(o['distinct'])
        inter.update('%s-%s' % (r['scenario'], x) for x in o['interleavings'])
        for k, v in o['counters'].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith('max_') else counters.get(k, 0) + v
        if r['first'] == 0:
            samples += [s[:1500] for s in o['samples'][:1]]
        b = per_job.setdefault('%s/%s' % (r['scenario'], r['variant']), dict(cases=0, wall_s=0.0))
        b['cases'] += o['done']
        b['wall_s'] = round(b['wall_s'] + r['wall'], 1)
        ek = r['harness'] + '/' + r['variant']
        edges[ek] = [max(edges.get(ek, [0, 0])[0], o['edges']), o['edges_total']]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 1), violations=len(real),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec['rule'], samples=samples[:8] or ['none'],
                            observed=counters, distinct_interleaving_signatures=len(inter), edges_hit_of_total=edges, runs=per_job,
                            build_s=round(tb, 1), inconclusive_runs=[r['key'] for r in inc],
                            skipped_runs=len([r for r in results if r is None])),
              assumptions=spec.get('assumptions', []) + [
                  'what is stated holds on the executions observed, not on every execution',
                  'KlepsydraSDK (absent here) is replaced by the stand-in headers of harness/sdk, validated with the repository\'s own SDK-dependent tests'])
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    rc = 0
    if real:
        rp = '%s/evidence/replay-%s.txt' % (HERE, prop)
        with open(rp, 'w') as f:
            for r in real[:4]:
                f.write('property=%s seed=%d key=%s\nharness=%s variant=%s\nreplay: VERIF_SEED=%d python3 /verif/replay.py %s %s %s %s\n%s\n--- stderr\n%s\n\n' % (
                    prop, seed, r['key'], r['harness'], r['variant'], seed, r['harness'], r['variant'], r['scenario'],
                    (r['out'] or {}).get('case', r['first']), r['detail'], r['err'][:20000]))
        for r in real[:4]:
            print('  %s: %s' % (r['key'], r['detail'][:600].replace('\n', ' | ')))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif err or evals == 0 or len(distinct) == 0:
        for r in err[:3]:
            print('CHECK-ERROR property=%s %s %s' % (prop, r['key'], r['err'][-1500:]))
        print('CHECK-ERROR property=%s nothing was observed' % prop)
        rc = 2
    missing = [n for n in spec.get('must_observe', []) if not counters.get(n)]
    if rc == 0 and missing:
        print('CHECK-ERROR property=%s never observed: %s' % (prop, ', '.join(missing)))
        rc = 2
    shutil.rmtree(work, ignore_errors=True)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d interleaving signatures, %d violations, %d inconclusive, %.0fs (build %.0fs)' % (
        prop, tier, seed, evals, len(distinct), len(inter), len(real), len(inc), time.time() - t0, tb))
    sys.exit(rc)


if __name__ == '__main__':
    main()
