from common import *
import random

SORT = ['lex_asc', 'lex_desc', 'nz_asc', 'nz_desc', 'rev', 'lexicographic_ascending', 'lexicographic_descending', 'nonzero_ascending', 'nonzero_descending', 'reverse', 'lex_up', 'lex_down', 'nz_up', 'nz_down']
TYPES = ['64', 'safe', 'inf']


@st.composite
def variant(draw):
    return {'perm': draw(I(0, 10**6)), 'dup': draw(I(0, 2)), 'scale': draw(st.booleans()), 'redundant': draw(I(0, 2)), 'm': draw(st.sampled_from(['dd', 'ad'])),
            's': draw(st.sampled_from([None] + SORT)), 'i': draw(st.sampled_from(TYPES)), 't': draw(st.sampled_from([1, 2, 4, 8])), 'rays_first': draw(st.booleans())}


@st.composite
def larger_v(draw):
    """beyond what the reference model handles comfortably: compared with another presentation only"""
    kind = draw(st.sampled_from(['01', 'box', 'struct']))
    if kind == '01':
        d = draw(I(4, 6))
        V = draw(gen.pts(d, draw(I(6, 20)), 1, 0))
    elif kind == 'box':
        d = draw(I(3, 5))
        V = draw(gen.pts(d, draw(I(6, 14)), 2))
    else:
        d, V = draw(gen.structured_points(5))
    R = [r for r in draw(gen.pts(d, draw(I(0, 2)), 1)) if any(r)] if draw(I(0, 2)) == 0 else []
    return {'kind': 'fe', 'd': d, 'V': V, 'R': R, 'fam': 'larger'}


def times(k, r):
    return [k * x for x in r]


def fe_variant(c, v):
    V, R = [list(x) for x in c['V']], [list(x) for x in c['R']]
    rnd = random.Random(v['perm'])
    if v['redundant'] and len(V) >= 2:
        for _ in range(v['redundant']):
            a, b = rnd.choice(V), rnd.choice(V)
            V.append([str((F(x) + F(y)) / 2) for x, y in zip(a, b)])
        if R:
            a, b = rnd.choice(V), rnd.choice(R)
            V.append([str(F(x) + y) for x, y in zip(a, b)])
            R.append([x + y for x, y in zip(rnd.choice(R), rnd.choice(R))])
    R = [r for r in R if any(r)]
    for _ in range(v['dup']):
        V.append(rnd.choice(V))
        if R:
            R.append(rnd.choice(R))
    if v['scale']:
        R = [times(rnd.choice([1, 1, 2, 3]), r) for r in R]
        for i, x in enumerate(V):
            if rnd.random() < .3:
                k = rnd.choice([2, 3])
                V[i] = ['%d/%d' % (F(y).numerator * k, F(y).denominator * k) for y in x]
    rnd.shuffle(V)
    rnd.shuffle(R)
    tv = ppl.text_vertices(V, [])
    tr = ppl.text_vertices([], R)
    return tr + tv if v['rays_first'] else tv + tr


def ve_variant(c, v):
    A, E = [list(x) for x in c['I']], [list(x) for x in c['E']]
    rnd = random.Random(v['perm'])
    if v['redundant'] and len(A) >= 2:
        for _ in range(v['redundant']):
            a, b = rnd.choice(A), rnd.choice(A)
            r = [x + y for x, y in zip(a, b)]
            r[-1] -= rnd.choice([0, 0, 1])
            A.append(r)
        if E:
            E.append([x + y for x, y in zip(rnd.choice(E), rnd.choice(E))])
    for _ in range(v['dup']):
        A.append(rnd.choice(A))
        if E:
            E.append(rnd.choice(E))
    if v['scale']:
        A = [times(rnd.choice([1, 1, 2, 3]), r) for r in A]
        E = [times(rnd.choice([1, -1, 2, -3]), r) for r in E]
    rnd.shuffle(A)
    rnd.shuffle(E)
    ti = 'Inequalities:\n' + ''.join(ppl.vrow(r) + '\n' for r in A)
    te = 'Equations:\n' + ''.join(ppl.vrow(r) + '\n' for r in E) if E else ''
    return ti + te if v['rays_first'] else te + ti


def canon_fe(out, d):
    eqs, iq = out
    rr, piv = poly.rref(eqs) if eqs else ([], [])
    return rr, sorted(poly.reduce_mod(r, rr, piv) for r in iq), len(eqs)


class P(Base):
    ID = 'C04'
    COUNT = {'quick': 6000, 'thorough': 150000}
    RULE = ('one polyhedron, two random presentations (order, duplicates, positive multiples, redundant rows, order of sections, -s, -i 64/safe/inf, -t, -m); the results are compared '
            'as sets (modulo the equations). Includes polyhedra larger than those of C01-C03. Non-trivial: at least three rows and at least two rows of output')

    def strategy(self, env):
        k = lambda kind: (lambda c: dict(c, kind=kind))
        base = st.one_of(vpoly().map(k('fe')), hpoly().map(k('ve')), larger_v())
        return st.tuples(base, variant(), variant()).map(lambda x: dict(x[0], a=x[1], b=x[2]))

    def one(self, c, v, ctx):
        d = c['d']
        opts = opts_of(v, v['m'])
        if c['kind'] == 'fe':
            rc, out, err = ctx.panda(fe_variant(c, v), *opts)
            return canon_fe(ppl.fe_output(rc, out, err, d), d)
        rc, out, err = ctx.panda(ve_variant(c, v), *opts)
        return sorted(ppl.ve_output(rc, out, err, d, v['m']))

    def judge(self, c, ctx):
        if c.get('fam') == 'big' or c.get('fam') == 'frac':
            for v in ('a', 'b'):
                if c[v]['i'] == '64':
                    c = dict(c, **{v: dict(c[v], i='inf')})
        if c['kind'] == 've':
            lin, piv, g = poly.generators(c['I'], c['E'], c['d'])
            if lin or not any(x[-1] for x in g):
                raise Skip()    # the set of printed rows is only unique for pointed, non-empty polyhedra
        a = self.one(c, c['a'], ctx)
        b = self.one(c, c['b'], ctx)
        n = len(a[1]) if c['kind'] == 'fe' else len(a)
        ctx.nontrivial = n >= 2 and len(c.get('V', c.get('I'))) >= 3
        ctx.feature(c['kind'], 'fam:' + c['fam'], 'modes:%s' % '/'.join(sorted([c['a']['m'], c['b']['m']])), 'rows>=10' if n >= 10 else None)
        for v in ('a', 'b'):
            if c[v]['s']:
                ctx.feature('-s ' + c[v]['s'])
        if a != b:
            raise Viol('two presentations of the same polyhedron give different results:\n%r\n%r' % (a, b))


PROP = P()
