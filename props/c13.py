from common import *
import pbt, re, os
import c03, c05, c16
"""schedules of the adjacency decomposition, chosen by a scheduler (harness/sched.cpp); data races by ThreadSanitizer"""


@st.composite
def cases(draw):
    k = draw(st.sampled_from(['plain', 'plain', 'known', 'sym']))
    if k == 'plain':
        c = draw(st.one_of(gen.v_polyhedron(dmax=4).map(lambda c: dict(c, kind='fe')), gen.h_polyhedron(dmax=4).map(lambda c: dict(c, kind='ve'))).filter(lambda c: c['fam'] != 'many'))
    elif k == 'sym':
        c = draw(st.one_of(gen.sym_v(), gen.sym_h()).filter(lambda x: x is not None))
    else:
        c = draw(c16.cases())
        c.update(c=None, bad=None)
    c['m'] = 'ad'
    c['what'] = k
    c['t'] = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))
    c['sched'] = [[draw(I(0, 10**6))] + draw(st.one_of(st.tuples(st.just('r'), st.sampled_from([1, 3, 10, 30, 100, 1000, 10000])), st.tuples(st.just('p'), st.sampled_from([20, 100, 1000, 10000, 50000]))).map(list))
                  + [draw(st.sampled_from([0, 0, 2, 10]))] for _ in range(draw(I(1, 6)))]
    c['tsan'] = draw(I(0, 4)) == 0
    return c


class Proxy:
    """runs the given build in place of panda and looks at every run"""

    def __init__(self, ctx, exe, env):
        self.ctx, self.exe, self.runenv = ctx, exe, env

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def __setattr__(self, n, v):
        if n in ('ctx', 'exe', 'runenv'):
            object.__setattr__(self, n, v)
        else:
            setattr(self.ctx, n, v)

    def panda(self, text, *opts, **kw):
        rc, out, err = self.ctx.panda(text, *opts, exe=self.exe, env=self.runenv, **kw)
        self.ctx.last[-1]['argv'].insert(0, ' '.join('%s="%s"' % (k, self.runenv[k]) for k in ('SCHED',) if k in self.runenv))
        if 'SCHED-DEADLOCK' in err:
            raise Viol('deadlock: all threads wait (schedule %s)' % self.runenv['SCHED'])
        if 'SCHED-LIVELOCK' in err:
            raise Viol('does not terminate (schedule %s)' % self.runenv['SCHED'])
        if 'WARNING: ThreadSanitizer' in err:
            m = re.findall(r'#\d+ (\S.*?) \(', err)
            raise Viol('ThreadSanitizer: %s: %s' % (re.search(r'ThreadSanitizer: ([^(\n]*)', err).group(1).strip(), ' / '.join(m[:3])))
        if rc == 0:
            processed(out, err, self.ctx)
        self.ctx.out = out
        return rc, out, err


def processed(out, err, ctx):
    """every row that is printed is processed exactly once"""
    m = re.search(r'^(?:Reduced )?(?:Inequalities|Vertices / Rays):\n', out, re.M)
    if not m:
        return
    rows = [l for l in out[m.end():].split('\n') if l.strip()]
    k = [int(x) for x in re.findall(r'^Processing #(\d+) ', err, re.M)]
    if not k:
        return
    if sorted(k) != list(range(1, len(rows) + 1)):
        raise Viol('%d rows are printed, but the processed ones are %r' % (len(rows), k))
    if len(set(rows)) != len(rows):
        raise Viol('a row is printed twice')
    ctx.rows = len(rows)


class P(Base):
    ID = 'C13'
    COUNT = {'quick': 1500, 'thorough': 60000}
    limit_memory = False
    RULE = ('V- and H-polyhedra, with and without maps and known data, 1-6 threads; each case is run under up to six different schedules chosen by a controlled scheduler (random switches or PCT priorities, at every memory access, '
            'synchronization operation and write; spurious wakeups): the result is that of the reference model, every row is processed exactly once, and there is no deadlock. Every fifth case also runs freely with ThreadSanitizer. '
            'Non-trivial: at least two threads and three rows')

    def build(self):
        return dict(build.schedules())

    def strategy(self, env):
        return cases()

    def inner(self, c, ctx):
        if c['what'] == 'known':
            return c16.PROP.judge(c, ctx)
        if c['what'] == 'sym':
            return c05.PROP.judge(c, ctx)
        return c03.PROP.judge(c, ctx)

    def judge(self, c, ctx):
        base = dict(os.environ)
        first = None
        ctx.rows = 0
        for s in c['sched']:
            if getattr(ctx, 'unmodelled', 0) >= 3:
                break
            p = Proxy(ctx, 'sched', dict(base, SCHED='%d %s %d %d' % tuple(s)))
            try:
                self.inner(c, p)
            except pbt.Hang:
                # a blocking operation the scheduler does not know: the free run decides
                ctx.unmodelled = getattr(ctx, 'unmodelled', 0) + 1
                ctx.feature('schedule not controllable')
                self.inner(c, Proxy(ctx, 'tsan', base))
                continue
            ctx.feature('mode ' + s[1], 'spurious wakeups' if s[3] else None)
            lines = sorted(ctx.out.split('\n'))
            if first is not None and lines != first:
                ctx.feature('different rows')
            first = lines
        ctx.nontrivial = c['t'] >= 2 and ctx.rows >= 3
        ctx.feature('threads:%d' % c['t'], c['what'])
        if c['tsan']:
            ctx.feature('tsan')
            nt = ctx.nontrivial
            self.inner(c, Proxy(ctx, 'tsan', dict(base, TSAN_OPTIONS='exitcode=66 report_bugs=1')))
            ctx.nontrivial = nt

    def evaluations_per_case(self, c):
        return len(c['sched']) + (1 if c['tsan'] else 0)


PROP = P()
