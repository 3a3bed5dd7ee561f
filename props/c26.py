from common import *
import os
from problem import Problem, problems
from c25 import run
"""faults of the environment"""


@st.composite
def cases(draw):
    c = draw(problems())
    c['m'] = draw(st.sampled_from(['ad', 'ad', 'dd']))
    c['t'] = draw(st.sampled_from([1, 2, 3]))
    c['i'] = draw(st.sampled_from([c.get('i'), 'inf']))
    c['c'] = draw(I(0, 3)) == 0
    c['subset'] = draw(I(0, 255)) if draw(st.booleans()) else 0
    c['f'] = [[draw(st.sampled_from('wwrrrmmmMtci')), draw(I(0, 1000)), draw(I(0, 3))] for _ in range(draw(I(1, 4)))]
    return c


class P(Base):
    ID = 'C26'
    COUNT = {'quick': 6000, 'thorough': 250000}
    RULE = ('the polyhedra of C01-C06 (with a random part of the result as known data), each with up to four single faults: the file system is full after n bytes of output, reading the input or the known data fails at offset n, '
            'one or all allocations from the n-th on fail, the n-th thread cannot be created, reads are short or interrupted. If panda reports success, its output is exactly the result of the reference model; '
            'otherwise it prints a message; it never dies from a signal other than an abort with a message and never hangs; short and interrupted reads never matter. '
            'Non-trivial: a fault occurred and the result has at least two rows')

    def build(self):
        return build.faults()

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        p = Problem(c)
        known = [r for i, r in enumerate(sorted(p.res)) if (c['subset'] >> (i % 8)) & 1]
        if any(abs(x) >= 2**31 for r in known for x in r):
            known = []
        files = [('known', p.known(known))] if known else []
        m = c['m']
        o = opts_of(c, m) + (['-k', 'known'] if known else []) + (['-c'] if c['c'] else [])
        count = os.path.join(ctx.dir, 'count')
        rc, out, err = run(ctx, p.text, o, files, 'n:0', {'FAULT_COUNT': count})
        p.exact(rc, out, err, m)
        allocations, threads = map(int, open(count).read().split())
        size = len(out.encode())
        for kind, x, y in c['f']:
            extra = {}
            certain = False
            if kind == 'w':
                n = size * x // 1001
                certain = True
            elif kind == 'r':
                f = 'known' if known and y == 0 else 'input'
                n = len((files[0][1] if f == 'known' else p.text).encode()) * x // 1001
                extra['FAULT_FILE'] = '/' + f
            elif kind in 'mM':
                n = 1 + allocations * x // 1000
            elif kind == 't':
                n = 1 + x % (threads + 1)
            else:
                n = 2 + x % 9
            ctx.feature('fault ' + kind)
            label = '%s:%d' % (kind, n)
            rc, out, err = run(ctx, p.text, o, files, label, extra)
            if rc == 0:
                ctx.feature('success ' + kind)
                if certain:
                    raise Viol('success is reported although the output could not be written (%d of %d bytes fit)' % (n, size))
                try:
                    p.exact(rc, out, err, m)
                except Viol as e:
                    raise Viol('success is reported in spite of the fault %s %s, but: %s' % (label, extra or '', e))
            else:
                if kind in 'ci':
                    raise Viol('fails because reads are short or interrupted: %s' % err[-200:])
                if rc < 0 and rc != -6:
                    raise Viol('dies from signal %d (fault %s)' % (-rc, label))
                if not [l for l in err.split('\n') if l.strip() and not l.startswith(('PANDA', 'Processing', 'Done'))]:
                    raise Viol('fails without a message (fault %s)' % label)
            ctx.nontrivial |= p.rows >= 2


PROP = P()
