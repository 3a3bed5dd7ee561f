from common import *


def ve_judge(c, ctx, mode):
    d = c['d']
    ref = poly.generators(c.get('ref', c['I']), c['E'], d)
    lin, piv, g = ref
    rc, out, err = ctx.panda(ve_text(c), *opts_of(c, mode))
    empty = not any(x[-1] for x in g)
    ctx.nontrivial = len(c['I']) + len(c['E']) >= 2 and len(g) >= 2 and not empty
    ctx.feature('fam:' + c['fam'], 'empty' if empty else 'unbounded' if any(x[-1] == 0 for x in g) else 'bounded', 'lineality' if lin else 'pointed',
                'i:' + str(c['i']), 'generators>=8' if len(g) >= 8 else None, 'equations' if c['E'] else None, 'words:%d' % c['words'] if 'words' in c else None)
    rows = ppl.ve_output(rc, out, err, d, mode)
    if empty:
        bad = [r for r in rows if r[-1] != 0]
        if bad:
            raise Viol('%s printed for an empty polyhedron' % ppl.show_h(bad[0]))
        return
    ppl.cmp_generators(rows, c['I'], c['E'], d, ref)


class P(Base):
    ID = 'C02'
    RULE = ('systems of inequalities (and equations) from eight families (polars of 0/1 polytopes in dimension 6 to 9, random, cut boxes, polars of structured polytopes, cones, large entries, with '
            'equations, with zero rows), run with -m dd. Non-trivial: the polyhedron is non-empty, has at least two generators and is described by at least two rows')

    def strategy(self, env):
        return mostly(hpoly(), gen.wide('h'))

    def judge(self, c, ctx):
        ve_judge(c, ctx, 'dd')


PROP = P()
