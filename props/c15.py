from common import *
import render
from c05 import orbits_of, check_orbits, header
"""the printed text of one conversion is the input of the next one"""

LIM = 1 << 31


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['vhv', 'vhv', 'hvh', 'hvh', 'sym']))
    if kind == 'vhv':
        c = draw(gen.v_polyhedron(dmax=4))
    elif kind == 'hvh':
        c = draw(gen.h_polyhedron(dmax=4))
    else:
        c = draw(gen.sym_v(16).filter(lambda x: x is not None))
    c['kind'] = kind
    c['i'] = 'inf'
    c['names'] = draw(st.one_of(st.none(), I(0, len(render.NAME_SETS) - 1)))
    c['modes'] = [draw(st.sampled_from(['dd', 'ad'])) for _ in range(3)]
    return c


def small(rows):
    if any(abs(x) >= LIM for r in rows for x in r):
        raise Skip()


class P(Base):
    ID = 'C15'
    COUNT = {'quick': 9000, 'thorough': 300000}
    RULE = ('V- and H-polyhedra of C01 / C02 (pointed, numbers of the result below 2^31) with and without declared names (many styles), and symmetric ones with maps: the literal text printed by one conversion, preceded by the '
            'names (and maps), is the input of the next one: V -> H -> V -> H and H -> V -> H. Every step has to give the reference result, and the last step the same rows as the first one. '
            'Non-trivial: at least two rows in either direction')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        d = c['d']
        names = render.names_for(c['names'], d) if c['names'] is not None else None
        pre = 'Names:\n' + ' '.join(names) + '\n' if names else ''
        if c['kind'] == 'sym':
            return self.sym(c, ctx, names or ['x%d' % (i + 1) for i in range(d)])
        if c['kind'] == 'vhv':
            V, R = q(c['V']), c['R']
            rr, piv, fs = poly.facets(V, R, d)
            lin, _, gens = poly.generators(fs, rr, d)
        else:
            lin, _, gens = poly.generators(c['I'], c['E'], d)
            V = [[F(x, g[-1]) for x in g[:-1]] for g in gens if g[-1]]
            R = [g[:-1] for g in gens if not g[-1]]
            if lin or not V:
                raise Skip()
            rr, piv, fs = poly.facets(V, R, d)
        if lin or not fs:       # no vertices; or a single point (no inequalities: not a valid input)
            raise Skip()
        small(gens)
        small(fs)
        small(rr)
        ctx.nontrivial = len(gens) >= 2 and len(fs) >= 2
        ctx.feature(c['kind'], 'names' if names else 'no names', 'rays' if R else 'bounded', 'equations' if rr else 'full-dim', 'fractions' if any(x.denominator > 1 for v in V for x in v) else None)
        ref = rr, piv, fs
        modes = list(c['modes'])

        def v2h(text):
            rc, out, err = ctx.panda(text, '-i', 'inf', '-m', modes.pop())
            eqs, iq = ppl.fe_output(rc, out, err, d, names)
            if any(abs(x) >= LIM for r in eqs + iq for x in r):
                raise Skip()
            ppl.cmp_facets(eqs, iq, V, R, d, ref)
            return out, {poly.reduce_mod(r, rr, piv) for r in iq}

        def h2v(text):
            rc, out, err = ctx.panda(text, '-i', 'inf', '-m', 'dd')
            rows = ppl.ve_output(rc, out, err, d, 'dd')
            ppl.cmp_generators(rows, None, None, d, (lin, None, gens))
            return out
        if c['kind'] == 'vhv':
            h, s1 = v2h(fe_text(c, pre))
            v = h2v(pre + h)
            h2, s2 = v2h(pre + v)
            if s1 != s2:
                raise Viol('V -> H -> V -> H does not give the same inequalities')
        else:
            v = h2v(ve_text(c, pre))
            h, _ = v2h(pre + v)
            v2 = h2v(pre + h)
            if sorted(v.splitlines()) != sorted(v2.splitlines()):
                raise Viol('H -> V -> H -> V does not print the same vertices and rays')

    def sym(self, c, ctx, names):
        d = c['d']
        pre = header(names, c['maps'])
        V = [v for o in c['orbits'] for v in o]
        R = [v for o in c['rays'] for v in o]
        rr, piv, fs = poly.facets(q(V), R, d)
        lin, _, gens = poly.generators(fs, rr, d)
        if lin or not fs:
            raise Skip()
        small(gens)
        small(fs)
        canon = lambda r: poly.reduce_mod(r, rr, piv)
        forb = orbits_of(fs, c['maps'], gen.act_row, canon)
        gorb = orbits_of(gens, c['maps'], gen.act_generator, poly.primitive)
        if sum(map(len, forb)) != len(fs) or sum(map(len, gorb)) != len(gens):
            raise Skip()
        ctx.nontrivial = len(forb) < len(fs) and len(fs) >= 3
        ctx.feature('sym', 'rays' if R else 'bounded', 'equations' if rr else 'full-dim')
        modes = list(c['modes'])

        def v2h(text):
            rc, out, err = ctx.panda(text, '-i', 'inf', '-m', modes.pop())
            eqs, iq = ppl.fe_output(rc, out, err, d, names, reduced=True)
            if any(abs(x) >= LIM for r in eqs + iq for x in r):
                raise Skip()
            ppl.cmp_equations(eqs, rr)
            check_orbits(iq, [canon(r) for r in iq], forb, 'inequality')
            return out

        def h2v(text):
            rc, out, err = ctx.panda(text, '-i', 'inf', '-m', 'dd')
            rows = ppl.ve_output(rc, out, err, d, 'dd', reduced=True)
            check_orbits([ppl.show_h(r) for r in rows], rows, gorb, 'vertex / ray')
            return out
        v2h(pre + h2v(pre + v2h(ppl.text_vertices(V, R, pre=pre))))


PROP = P()
