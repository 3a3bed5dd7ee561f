from common import *
import os, re
import pbt
"""the shared work list with arbitrary graphs under controlled schedules"""


@st.composite
def cases(draw):
    n = draw(I(1, 9))
    node = I(0, n - 1)
    shape = draw(st.sampled_from(['random', 'random', 'path', 'star', 'tree', 'empty']))
    if shape == 'random':
        g = [draw(st.lists(node, max_size=5)) for _ in range(n)]
    elif shape == 'path':
        g = [[i + 1] if i + 1 < n else [] for i in range(n)]
    elif shape == 'star':
        g = [list(range(n))] + [draw(st.lists(node, max_size=1)) for _ in range(n - 1)]
    elif shape == 'tree':
        g = [[j for j in (2 * i + 1, 2 * i + 2) if j < n] for i in range(n)]
    else:
        g = [[] for _ in range(n)]
    return {'g': g, 'init': draw(st.lists(node, max_size=3)) if shape == 'random' else draw(st.sampled_from([[0], [0, 0], []])) if draw(I(0, 9)) == 0 else [0],
            'async': draw(st.lists(node, max_size=4)) if draw(I(0, 2)) == 0 else [], 't': draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6])), 'cls': draw(st.sampled_from('lj')), 'tag': draw(st.sampled_from('vf')),
            'names': draw(st.booleans()), 'setup': draw(I(0, 1)),
            'sched': [[draw(I(0, 10**6))] + draw(st.one_of(st.tuples(st.just('r'), st.sampled_from([1, 3, 10, 30, 100, 1000])), st.tuples(st.just('p'), st.sampled_from([20, 100, 1000, 5000]))).map(list))
                      + [draw(st.sampled_from([0, 0, 2, 10]))] for _ in range(draw(I(1, 5)))], 'tsan': draw(I(0, 5)) == 0}


def node_of(line, c):
    if c['tag'] == 'f' and c['names']:
        m = re.match(r'^(-?\d*)a(?: ([+-]\d*)b)? <= (-?\d+)$', line)
        if not m:
            raise Viol('printed: %r' % line)
        f = lambda s: 0 if s is None else int(s + '1') if s in ('', '+', '-') else int(s)
        r = [f(m.group(1)), f(m.group(2)), -int(m.group(3))]
    else:
        try:
            r = [int(x) for x in line.split()]
        except ValueError:
            raise Viol('printed: %r' % line)
    n = r[0] - 1
    if len(r) != 3 or not 0 <= n < len(c['g']) or r != [n + 1, n % 3, -n]:
        raise Viol('a row that was never put is printed: %r' % line)
    return n


def closure(c, start):
    seen = set()
    todo = list(start)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += c['g'][x]
    return seen


class P(Base):
    ID = 'C24'
    COUNT = {'quick': 3500, 'thorough': 150000}
    limit_memory = False
    RULE = ('arbitrary directed graphs of up to nine rows (with repeated neighbours, self loops, cycles, rows without neighbours), explored through List / JobManager by 1-6 worker threads, initial rows put before the start of all workers or of '
            'the last one (as in the distributed version), further single rows put asynchronously; up to five controlled schedules each (as C13), every sixth case also freely under ThreadSanitizer. Every row that is put is printed exactly once; every row reachable from '
            'the initial ones is handed out exactly once; only rows that were put are handed out; all workers end. Non-trivial: at least two threads and three rows handed out')

    def build(self):
        return build.worklist()

    def strategy(self, env):
        return cases()

    def once(self, c, ctx, exe, env, label):
        lst = lambda v: '%d %s' % (len(v), ' '.join(map(str, v)))
        text = '%s %s %d %d %d %d\n%s\n%s\n%s\n' % (c['cls'], c['tag'], c['t'], len(c['g']), int(c['names']), c['setup'], lst(c['init']), lst(c['async']), '\n'.join(lst(v) for v in c['g']))
        rc, out, err = ctx.exec([ctx.env[exe]], stdin=text, note=text + label, env=env)
        if 'SCHED-DEADLOCK' in err:
            raise Viol('deadlock: all threads wait (%s)' % label)
        if 'SCHED-LIVELOCK' in err:
            raise Viol('does not end (%s)' % label)
        if 'WARNING: ThreadSanitizer' in err:
            m = re.findall(r'#\d+ (\S.*?) \(', err)
            raise Viol('ThreadSanitizer: %s: %s' % (re.search(r'ThreadSanitizer: ([^(\n]*)', err).group(1).strip(), ' / '.join(m[:3])))
        if rc != 0 or not err.endswith('END\n'):
            raise Viol('exit status %r (%s): %s' % (rc, label, err[-200:]))
        printed = [node_of(l, c) for l in out.split('\n') if l.strip()]
        got = [int(x) for x in re.findall(r'^GOT \d+ (\d+)$', err, re.M)]
        if len(set(printed)) != len(printed):
            raise Viol('a row is printed twice: %r (%s)' % (printed, label))
        if len(set(got)) != len(got):
            raise Viol('a row is handed out twice: %r (%s)' % (got, label))
        must = closure(c, c['init'])
        if not must <= set(got):
            raise Viol('rows %r are never handed out (%s)' % (sorted(must - set(got)), label))
        put = set(c['init']) | set(c['async'])
        for x in got:
            put |= set(c['g'][x])
        if put != set(printed):
            raise Viol('rows %r were put, but %r are printed (%s)' % (sorted(put), sorted(printed), label))
        if not set(got) <= put:
            raise Viol('rows that were never put are handed out: %r (%s)' % (got, label))
        return len(got)

    def judge(self, c, ctx):
        n = 0
        for s in c['sched']:
            if getattr(ctx, 'unmodelled', 0) >= 3:
                break
            v = '%d %s %d %d' % tuple(s)
            try:
                n = max(n, self.once(c, ctx, 'sched', dict(os.environ, SCHED=v), 'SCHED="%s"' % v))
            except pbt.Hang:
                ctx.unmodelled = getattr(ctx, 'unmodelled', 0) + 1
                ctx.feature('schedule not controllable')
                n = self.once(c, ctx, 'tsan', dict(os.environ), 'free')
                continue
            ctx.feature('mode ' + s[1], 'spurious wakeups' if s[3] else None)
        if c['tsan'] or getattr(ctx, 'unmodelled', 0) >= 3:
            ctx.feature('tsan')
            n = self.once(c, ctx, 'tsan', dict(os.environ, TSAN_OPTIONS='exitcode=66 report_bugs=1'), 'ThreadSanitizer')
        ctx.nontrivial = c['t'] >= 2 and n >= 3
        ctx.feature('threads:%d' % c['t'], 'setup:%d' % c['setup'], 'asynchronous' if c['async'] else None)

    evaluations_per_case = staticmethod(lambda c: len(c['sched']) + (1 if c['tsan'] else 0))


PROP = P()
