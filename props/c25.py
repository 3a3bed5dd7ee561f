from common import *
import os, subprocess
import pbt
from problem import Problem, problems
"""interrupted runs"""


@st.composite
def cases(draw):
    c = draw(problems())
    c['m'] = draw(st.sampled_from(['ad', 'ad', 'ad', 'dd']))
    c['t'] = draw(st.sampled_from([1, 2, 4]))
    c['i'] = draw(st.sampled_from([c.get('i'), 'inf']))
    c['at'] = [draw(I(0, 1000)) for _ in range(draw(I(1, 3)))]
    c['c'] = draw(I(0, 2)) == 0
    c['prior'] = draw(I(0, 3)) == 0
    return c


def run(ctx, text, opts, files, faults, extra=()):
    """panda with faults; standard error through a pipe (it is not limited)"""
    ctx.write('input', text)
    for n, t in files:
        ctx.write(n, t)
    env = dict(os.environ, LD_PRELOAD=ctx.env['faults'], FAULTS=faults, **dict(extra))
    po = os.path.join(ctx.dir, '.out')
    argv = [ctx.env['panda'], *opts, 'input']
    with open(po, 'wb') as fo:
        try:
            p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=fo, stderr=subprocess.PIPE, cwd=ctx.dir, env=env, close_fds=False, timeout=ctx.timeout)
        except subprocess.TimeoutExpired:
            raise pbt.Hang('did not terminate within %g s (%s)' % (ctx.timeout, faults))
    out, err = pbt._read(po), p.stderr.decode('utf-8', 'replace')
    ctx.last.append({'argv': ['FAULTS=' + faults] + ['panda'] + argv[1:], 'rc': p.returncode, 'input': '\n'.join([text] + ['[%s]\n%s' % f for f in files]), 'stdout': out[:4000], 'stderr': err[:2000]})
    return p.returncode, out, err


class P(Base):
    ID = 'C25'
    COUNT = {'quick': 7000, 'thorough': 250000}
    RULE = ('the polyhedra of C01-C06; the program is killed by the system when its output reaches a random length. Every complete line printed until then is right (a facet / vertex / ray or one of its class, no class twice, valid equations), and '
            'a second run that gets these rows as known data gives exactly the result of the reference model (again possibly after being interrupted up to three times). Non-trivial: at least one row printed before and one missing at the interruption')

    def build(self):
        return build.faults()

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        p = Problem(c)
        ctx.feature(c['kind'], c['m'])
        rc, out, err = ctx.panda(p.text, *opts_of(c, c['m']))
        p.exact(rc, out, err, c['m'])
        size = len(out.encode())
        known, m = [], c['m']
        for at in c['at']:
            n = size * at // 1001
            files = [('known', p.known(known))] if known else []
            o = opts_of(c, m) + (['-k', 'known'] if known else [])
            rc, out, err = run(ctx, p.text, o, files, 'k:%d' % n)
            if rc >= 0:
                if rc == 0 and len(out.encode()) > n:
                    raise RuntimeError('the limit has no effect')
                if rc == 0:                     # shorter than expected, but complete?
                    p.exact(rc, out, err, m)
                    break
                raise Viol('exit status %d although nothing but the space for the output is limited: %s' % (rc, err[-200:]))
            if rc != -25:
                raise Viol('dies from signal %d' % -rc)
            out = out[:out.rfind('\n') + 1]
            rows = p.partial(out, err, m)
            if 0 < len(rows) < p.rows:
                ctx.nontrivial = True
            ctx.feature('interrupted' if len(rows) < p.rows else 'complete but interrupted', 'with known data' if known else None)
            if rows:
                known = rows
            m = 'ad'
        if any(abs(x) >= 2**31 for r in known for x in r):
            raise Skip()
        if known:
            o = opts_of(c, 'ad') + ['-k', 'known'] + (['-c'] if c['c'] else [])
            rc, out, err = ctx.panda(p.text, *o, files=[('known', p.known(known))])
            p.exact(rc, out, err, 'ad')
            ctx.feature('resumed', 'resumed with check' if c['c'] else None)


PROP = P()
