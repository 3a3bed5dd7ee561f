from common import *
import c02


class P(Base):
    ID = 'C03'
    RULE = ('the same families of V- and H-polyhedra as C01 and C02, run with -m ad and 1 to 8 threads. Non-trivial: as in C01 / C02')

    def strategy(self, env):
        t = st.sampled_from([1, 2, 3, 4, 8])
        m = lambda k: (lambda x: dict(x[0], t=x[1], kind=k))
        return st.one_of(st.tuples(mostly(vpoly(), gen.wide('v')), t).map(m('fe')), st.tuples(mostly(hpoly(), gen.wide('h')), t).map(m('ve')))

    def judge(self, c, ctx):
        ctx.feature(c['kind'], 'threads:%d' % c['t'])
        if c['kind'] == 've':
            return c02.ve_judge(c, ctx, 'ad')
        d = c['d']
        ref = poly.facets(q(c.get('ref', c['V'])), c['R'], d)
        rc, out, err = ctx.panda(fe_text(c), *opts_of(c, 'ad'))
        ctx.nontrivial = len({tuple(map(str, v)) for v in c['V']}) + len(c['R']) >= 3 and len(ref[2]) >= 2
        ctx.feature('fam:' + c['fam'], 'rays' if c['R'] else 'polytope', 'equations' if ref[0] else 'full-dim', 'i:' + str(c['i']), 'facets>=8' if len(ref[2]) >= 8 else None, 'words:%d' % c['words'] if 'words' in c else None)
        eqs, iq = ppl.fe_output(rc, out, err, d)
        ppl.cmp_facets(eqs, iq, c['V'], c['R'], d, ref)


PROP = P()
