from common import *
import pbt, re, os
import c03, c05, c13, c16
"""the distributed version (MPI_SUPPORT), with a stand-in for MPI that delays messages and completions at random"""


@st.composite
def cases(draw):
    c = draw(c13.cases())
    del c['sched'], c['tsan']
    c['t'] = draw(st.sampled_from([1, 1, 2, 3]))
    c['mpi'] = [[draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])), draw(I(0, 10**6))] for _ in range(draw(I(1, 3)))]
    return c


class Proxy(c13.Proxy):
    def panda(self, text, *opts, **kw):
        rc, out, err = self.ctx.panda(text, *opts, exe=self.exe, env=self.runenv, **kw)
        self.ctx.last[-1]['argv'].insert(0, ' '.join('%s=%s' % (k, self.runenv[k]) for k in ('FAKEMPI_SIZE', 'FAKEMPI_SEED')))
        m = re.search(r'ERROR: (AddressSanitizer: .*?)( on address.*)?$', err, re.M)
        if m:
            raise Viol('%s (%s processes)' % (m.group(1), self.runenv['FAKEMPI_SIZE']))
        m = re.search(r'FAKE-MPI: (.*)', err)
        if m and not getattr(self.ctx, 'may_fail', False):
            raise Viol('%s (%s processes)' % (m.group(1), self.runenv['FAKEMPI_SIZE']))
        m = re.search(r'FAKE-MPI-STATS: (\d+) messages, (\d+) copied late, (\d+) hidden', err)
        if m:
            self.ctx.messages = int(m.group(1))
            self.ctx.feature('messages' if int(m.group(1)) else None, 'late reads of send buffers' if int(m.group(2)) else None, 'delayed messages' if int(m.group(3)) else None)
        self.ctx.rows = len([l for l in out.split('\n') if l.strip()])
        return rc, out, err


class P(Base):
    ID = 'C22'
    COUNT = {'quick': 3000, 'thorough': 100000}
    limit_memory = False
    RULE = ('the distributed version (compiled with MPI_SUPPORT) on V- and H-polyhedra with and without maps and known data, 1-5 processes with 1-3 threads each, on a stand-in for MPI that uses the freedom of the standard: '
            'send buffers are read at any time until the request completes, messages and completions are delayed at random. The result has to be that of the reference model; nothing is printed twice; every message is received. '
            'Non-trivial: at least two processes, at least one message and three lines of output')

    def build(self):
        return {'mpi': build.mpi()}

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        inner = c16.PROP if c['what'] == 'known' else c05.PROP if c['what'] == 'sym' else c03.PROP
        nt = False
        for n, seed in c['mpi']:
            ctx.messages = ctx.rows = 0
            inner.judge(c, Proxy(ctx, 'mpi', dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', FAKEMPI_SIZE=str(n), FAKEMPI_SEED=str(seed))))
            nt |= n >= 2 and ctx.rows >= 3 and ctx.messages >= 1
            ctx.feature('processes:%d' % n, c['what'])
        ctx.nontrivial = nt

    evaluations_per_case = staticmethod(lambda c: len(c['mpi']))


PROP = P()
