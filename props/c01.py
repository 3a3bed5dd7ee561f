from common import *


class P(Base):
    ID = 'C01'
    RULE = ('polyhedra given by vertices/rays from ten families (0/1 polytopes in dimension 6 to 9, random boxes, 0/1, products/pyramids/prisms/bipyramids/moment-curve polygons and '
            'their affine images, large entries, fractions, lower-dimensional, sparse; duplicates; rays), run with -m dd. Non-trivial: at least 3 distinct generators and the '
            'model has at least 2 facets')

    def strategy(self, env):
        return mostly(vpoly(), gen.wide('v'))

    def judge(self, c, ctx):
        d = c['d']
        ref = poly.facets(q(c.get('ref', c['V'])), c['R'], d)
        rc, out, err = ctx.panda(fe_text(c), *opts_of(c, 'dd'))
        ctx.nontrivial = len({tuple(map(str, v)) for v in c['V']}) + len(c['R']) >= 3 and len(ref[2]) >= 2
        ctx.feature('fam:' + c['fam'], 'rays' if c['R'] else 'polytope', 'equations' if ref[0] else 'full-dim', 'i:' + str(c['i']), 'facets>=8' if len(ref[2]) >= 8 else None, 'words:%d' % c['words'] if 'words' in c else None)
        eqs, iq = ppl.fe_output(rc, out, err, d)
        ppl.cmp_facets(eqs, iq, c['V'], c['R'], d, ref)


PROP = P()
