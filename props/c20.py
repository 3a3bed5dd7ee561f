from common import *
from algo import *
"""facets of a cone given by generators: complete enumeration, heuristic, and rotation"""


@st.composite
def cases(draw):
    if draw(I(0, 2)) == 0:
        c = draw(gen.h_polyhedron())
        rows = c['I'] + c['E'] + [[-x for x in e] for e in c['E']]
        homog = False
    else:
        c = draw(gen.v_polyhedron(fractions=False))
        rows = [v + [1] for v in c['V']] + [r + [0] for r in c['R']]
        homog = True
    d = c['d']
    return {'d': d, 'rows': rows, 'fam': c['fam'], 'poly': homog, 't': draw(st.sampled_from(['64', 'safe', 'inf'])), 'pick': draw(I(0, 99))}


class P(Alg):
    ID = 'C20'
    COUNT = {'quick': 9000, 'thorough': 300000}
    RULE = ('homogenized V-polyhedra and H-polyhedra (with numbers small enough for the tested types), given directly to the algorithms: the heuristic returns only facets (pairwise different, never the face at infinity) and, with rows that span a polyhedron with a facet, at least '
            'one; the rotation of a random facet returns exactly the facets that share a ridge with it. Oracle: adjacency by the rank of the common generators. Non-trivial: at least three facets')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        d = c['d']
        rows = c['rows']
        rr, piv, fs = poly.dual(rows, d + 1)
        far = poly.reduce_mod([0] * d + [-1], rr, piv)
        m = max([1] + [abs(x) for r in list(fs) + rows for x in r])
        if m > 1000 or not any(any(r) for r in rows):
            raise Skip()
        canon = lambda r: poly.reduce_mod(r, rr, piv)
        real = set(fs) - {far}
        ctx.feature('fam:' + c['fam'], 'type ' + c['t'], 'equations' if rr else 'full-dim', 'points' if c['poly'] else 'constraints')
        ctx.nontrivial = len(real) >= 3
        M = matrix(rows)
        heur = self.call(ctx, c['t'], ['heuristic ' + M])[0]
        red = [canon(r) for r in heur]
        # (if equations make the row (0,...,0,-1) equivalent to other rows, only the literal row is removed)
        allowed = real if c['poly'] else fs
        for r, x in zip(heur, red):
            if x not in allowed:
                raise Viol('heuristic: %r is not a facet' % (r,))
        if len(set(red)) != len(red):
            raise Viol('heuristic returns the same facet twice: %r' % (heur,))
        if real and not heur:
            raise Viol('heuristic returns no facet although there are %d' % len(real))
        ctx.feature('heuristic incomplete' if len(red) < len(real) else None)
        if not c['poly'] or not real:
            return
        # rotation
        f = sorted(real)[c['pick'] % len(real)]
        on = lambda g: {i for i, r in enumerate(rows) if poly.dot(g, r) == 0}
        dim = poly.rank(rows)
        base = on(f)
        want = {g for g in real if g != f and poly.rank([rows[i] for i in base & on(g)]) == dim - 2}
        if dim == 2:
            want = {g for g in real if g != f}
        got = self.call(ctx, c['t'], ['rotation:f 0 %s %s' % (M, row(f))])[0]
        g2 = [canon(r) for r in got]
        ctx.feature('rotation')
        for r, x in zip(got, g2):
            if x not in real:
                raise Viol('rotation of %r: %r is not a facet' % (f, r))
            if x not in want:
                raise Viol('rotation of %r: %r is not adjacent' % (f, r))
        if want - set(g2):
            raise Viol('rotation of %r: adjacent facet %r is missing' % (f, min(want - set(g2))))


PROP = P()
