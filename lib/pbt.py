"""Runner shared by all checks: parallel, seeded Hypothesis workers, shrinking,
confirmation of failures, replay files, evidence."""
import collections, hashlib, json, multiprocessing as mp, os, random, resource, shutil, subprocess
import sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

TIMEOUT = 20.0          # a generated case takes milliseconds
SHRINK_SECONDS = 25.0
MAX_FILE = 64 << 20


class Viol(Exception):
    """the property is broken by this case"""


class Skip(Exception):
    """case outside of the domain of the property (not counted as non-trivial)"""


class StopShrinking(KeyboardInterrupt):
    pass


class Hang(Viol):
    pass


class Ctx:
    """what a judge may use while deciding one case"""

    def __init__(self, env):
        self.env = env              # things built before the fork, e.g. {'panda': path}
        self.dir = tempfile.mkdtemp(prefix='vpanda.')
        self.timeout = TIMEOUT
        self.last = []              # commands and inputs of the current case (for the replay)
        self.feat = collections.Counter()
        self.nontrivial = False
        self.features = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def begin(self):
        self.last = []
        self.nontrivial = False
        self.features = []

    def feature(self, *names):
        self.features.extend(n for n in names if n)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return p

    def exec(self, argv, stdin=None, env=None, timeout=None, note=None):
        """run a program with its output captured in (size limited) files.
        returns (returncode, stdout, stderr)"""
        po, pe = os.path.join(self.dir, '.out'), os.path.join(self.dir, '.err')
        fi = None
        if stdin is not None:
            pi = self.write('.in', stdin)
            fi = open(pi, 'rb')
        t0 = time.time()
        with open(po, 'wb') as fo, open(pe, 'wb') as fe:
            p = subprocess.Popen(argv, stdin=fi or subprocess.DEVNULL, stdout=fo, stderr=fe, cwd=self.dir, env=env, close_fds=False)
            try:
                rc = p.wait(timeout or self.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
        if fi:
            fi.close()
        out = _read(po)
        err = _read(pe)
        self.last.append({'argv': [os.path.basename(argv[0])] + list(argv[1:]), 'rc': rc, 'input': note, 'stdout': out[:4000], 'stderr': err[:2000],
                          'seconds': round(time.time() - t0, 2)})
        if rc is None:
            raise Hang('did not terminate within %g s: %s' % (timeout or self.timeout, ' '.join(argv[1:])))
        return rc, out, err

    def panda(self, text, *opts, name='input', files=(), exe='panda', env=None, timeout=None):
        """run panda on an input text; files: (name, text) of further files"""
        path = self.write(name, text)
        notes = [text] if isinstance(text, str) else [repr(text)]
        for n, t in files:
            self.write(n, t)
            notes.append('[%s]\n%s' % (n, t))
        return self.exec([self.env[exe], *opts, path], note='\n'.join(notes), env=env, timeout=timeout)


def _read(p):
    with open(p, 'rb') as f:
        return f.read(MAX_FILE).decode('utf-8', 'replace')


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).digest()[:10]


def judge_once(prop, case, ctx):
    """-> None | message"""
    ctx.begin()
    try:
        prop.judge(case, ctx)
    except Skip:
        ctx.nontrivial = False
        return None
    except Viol as v:
        ctx.hang = isinstance(v, Hang)
        return str(v) or 'violation'
    return None


def _worker(args):
    prop, env, seed, count, deadline, queue = args
    resource.setrlimit(resource.RLIMIT_FSIZE, (MAX_FILE, MAX_FILE))
    if getattr(prop, 'limit_memory', True):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx(env)
    res = {'evaluations': 0, 'hashes': set(), 'samples': [], 'features': collections.Counter(), 'fail': None, 'error': None, 'late': False}
    try:
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, Verbosity
        state = {'first': None, 'best': None}

        def body(case):
            now = time.time()
            if state['first'] is None:
                if now > deadline:
                    res['late'] = True
                    return
            elif now - state['first'] > SHRINK_SECONDS:
                raise StopShrinking()
            if state['first'] is not None:
                ctx.timeout = 5.0
            ctx.begin()
            msg = judge_once(prop, case, ctx)
            if state['first'] is None:
                res['evaluations'] += getattr(prop, 'evaluations_per_case', lambda c: 1)(case)
                if ctx.nontrivial:
                    h = case_hash(case)
                    if h not in res['hashes']:
                        res['hashes'].add(h)
                        if len(res['samples']) < 2 and len(res['hashes']) % 17 == 5 or (len(res['hashes']) == 1):
                            res['samples'].append(case)
                for f in ctx.features:
                    res['features'][f] += 1
            if msg is not None:
                if state['first'] is None:
                    state['first'] = time.time()
                    state['orig'] = (case, msg, list(ctx.last), getattr(ctx, 'hang', False))
                state['best'] = (case, msg, list(ctx.last), getattr(ctx, 'hang', False))
                raise AssertionError(msg)

        test = given(prop.strategy(env))(body)
        test = settings(max_examples=count, deadline=None, database=None, derandomize=False, suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False,
                        verbosity=Verbosity.quiet)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except BaseException as e:
            if state['first'] is None:
                raise
        if state['best'] is not None:
            res['fail'] = (state['best'], state['orig'])
    except BaseException as e:
        res['error'] = traceback.format_exc()
    finally:
        ctx.close()
    queue.put(res)


def confirm(prop, env, fail):
    """replay a failing case: returns (case, msg, commands, reproduced k of n)"""
    ctx = Ctx(env)
    out = None
    try:
        for case, msg, last, hang in fail:
            ok = 0
            n = 3
            tries = 0
            while tries < n:
                tries += 1
                m = judge_once(prop, case, ctx)
                if m is not None:
                    ok += 1
                    msg, last = m, list(ctx.last)
                elif n == 3:
                    n = 30      # not deterministic: try harder
            if ok:
                return case, msg, last, '%d of %d replays' % (ok, tries)
            if not hang and out is None:
                out = (case, msg, last, 'not reproduced in %d replays (depends on the schedule)' % tries)
        return out
    finally:
        ctx.close()


def run_workers(prop, env, seed, count, seconds):
    nw = getattr(prop, 'workers', None) or min(8, os.cpu_count() or 8)
    per = max(1, (count + nw - 1) // nw)
    queue = mp.Queue()
    deadline = time.time() + seconds
    ps = []
    for i in range(nw):
        p = mp.Process(target=_worker, args=((prop, env, (seed * 1000003 + i * 7919 + int(hashlib.sha1(prop.ID.encode()).hexdigest()[:6], 16)) & 0x7fffffff, per, deadline, queue),))
        p.start()
        ps.append(p)
    results = []
    while len(results) < nw:
        try:
            results.append(queue.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps) and queue.empty():
                break
    for p in ps:
        p.join()
    if len(results) < nw:
        raise RuntimeError('a worker of the check died')
    for r in results:
        if r['error'] and not any(q['fail'] for q in results):
            raise RuntimeError('error in the check:\n' + r['error'])
    return results


def collect(strategy, n, seed):
    """n generated examples (for corpora)"""
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    out = []

    @hseed(seed)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
    @given(strategy)
    def body(x):
        out.append(x)
    body()
    return out


def run_check(prop, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    ev = {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {}, 'wall_s': 0.0}
    env = prop.build()
    t1 = time.time()
    findings = known_findings(prop.ID)
    viols = []
    stats = {'evaluations': 0, 'hashes': set(), 'samples': [], 'features': collections.Counter(), 'late': False}

    def is_known(v):
        return next((f for f in findings if f['match'] in v[1] or f['match'] == json.dumps(v[0], sort_keys=True)), None)

    def add(results):
        for r in results:
            stats['evaluations'] += r['evaluations']
            stats['hashes'] |= r['hashes']
            stats['samples'] += r['samples']
            stats['features'].update(r['features'])
            stats['late'] |= r['late']
        fails = [r['fail'] for r in results if r['fail']]
        stats['failing_workers'] = len(fails)
        # confirm the simplest ones first (wrong answers before hangs)
        for f in sorted(fails, key=lambda f: (f[0][3], len(json.dumps(f[0][0], default=str)))):
            c = confirm(prop, env, f)
            if c:
                viols.append(c)
                if not is_known(c):
                    break

    # fixed cases of the property (regressions, corner cases) first
    fixed = list(prop.fixed_cases()) if hasattr(prop, 'fixed_cases') else []
    if fixed:
        ctx = Ctx(env)
        for case in fixed:
            m = judge_once(prop, case, ctx)
            stats['evaluations'] += 1
            if ctx.nontrivial:
                stats['hashes'].add(case_hash(case))
            for f in ctx.features:
                stats['features'][f] += 1
            if m is not None:
                c = confirm(prop, env, [(case, m, list(ctx.last), getattr(ctx, 'hang', False))])
                if c:
                    viols.append(c)
        ctx.close()
    if not viols:
        count = prop.COUNT[tier]
        seconds = getattr(prop, 'SECONDS', {'quick': 400, 'thorough': 6000})[tier]
        add(run_workers(prop, env, seed, count, seconds))
    extra = {}
    if not viols and hasattr(prop, 'campaign'):
        n, case, extra = prop.campaign(env, tier, seed)
        stats['evaluations'] += n
        if case is not None:
            ctx = Ctx(env)
            m = judge_once(prop, case, ctx)
            if m is not None:
                viols.append((case, m, list(ctx.last), '1 of 1 replays'))
            else:
                extra['not_reproduced'] = 1
            ctx.close()
    if hasattr(prop, 'cleanup'):
        prop.cleanup(env)

    known = []
    fresh = []
    for v in viols:
        f = is_known(v)
        (known if f else fresh).append((v, f))
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop.ID, f['what']))
    rep = None
    if fresh:
        v = min((x[0] for x in fresh), key=lambda v: len(json.dumps(v[0], default=str)))
        rep = os.path.join('replays', '%s-%d-%s.json' % (prop.ID, seed, case_hash(v[0]).hex()[:8]))
        with open(os.path.join(VERIF, rep), 'w') as f:
            json.dump({'property': prop.ID, 'message': v[1], 'reproduced': v[3], 'case': v[0], 'runs': v[2],
                       'replay_with': 'python3-vt check.py %s --replay %s' % (prop.ID, rep)}, f, indent=1, default=str)
        print('%s: %s' % (prop.ID, v[1]))
        for run in v[2][-2:]:
            print('--- %s -> %s\n%s' % (' '.join(run['argv']), run['rc'], run['input'] or ''))
            print('stdout: %s' % run['stdout'][:1500])
            if run['stderr']:
                print('stderr: %s' % run['stderr'][-600:])
        print('VIOLATION property=%s replay=%s' % (prop.ID, rep))
    samples = stats['samples'][:4] or [c for c in fixed[:2]] or ['(none)']
    ev['coverage'] = {
        'evaluations': stats['evaluations'],
        'distinct_nontrivial': len(stats['hashes']),
        'rule': prop.RULE,
        'samples': [(lambda t: json.loads(t) if len(t) < 4000 else t[:4000] + ' ...')(json.dumps(s, default=str)) for s in samples],
        'features': dict(sorted(stats['features'].items())),
        'fixed_cases': len(fixed),
        'violations': len(fresh),
        'known_findings': len(findings),
        'stopped_early_by_time': stats['late'],
        'build_s': round(t1 - t0, 1),
    }
    ev['coverage'].update(extra)
    if hasattr(prop, 'extra_coverage'):
        ev['coverage'].update(prop.extra_coverage(env))
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), build %.1f s, total %.1f s'
          % (prop.ID, tier, seed, stats['evaluations'], len(stats['hashes']), len(fresh), t1 - t0, ev['wall_s']))
    return 1 if fresh else 0


def known_findings(pid):
    """lines of KNOWN_FINDINGS.md: `known: property=<id> match=<json string> what=<text>`.
    `fixed:` lines suppress nothing and are ignored here."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip().lstrip('-* ')
        if line.startswith('known: property=%s ' % pid):
            rest = line[len('known: property=%s ' % pid):]
            d = json.loads(rest)
            out.append(d)
    return out
