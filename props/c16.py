from common import *
import c05

PAR = ['-k', '-k=', '--known-data=', 'specific']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['fe', 'fe', 've', 've', 'symv', 'symh']))
    small = lambda c: c['fam'] != 'many'
    if kind == 'fe':
        c = draw(gen.v_polyhedron(dmax=4).filter(small))
    elif kind == 've':
        c = draw(gen.h_polyhedron(dmax=4).filter(small))
    else:
        c = draw((gen.sym_v() if kind == 'symv' else gen.sym_h()).filter(lambda x: x is not None))
    c['kind'] = kind
    c['t'] = draw(st.sampled_from([1, 2, 4]))
    c['m'] = draw(st.sampled_from(['ad', 'ad', 'ad', 'ad', 'dd']))
    c['subset'] = draw(I(1, 2**16))
    c['k'] = draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=4, max_size=4))
    c['eq'] = draw(st.lists(st.sampled_from([0, 0, 1, -1, 2]), min_size=4, max_size=4))
    c['c'] = draw(st.sampled_from([None, None, '-c', '--check']))
    c['bad'] = draw(st.sampled_from([None, None, None, 'cut', 'face', 'strict', 'point'])) if c['c'] else None
    c['par'] = draw(I(0, 3))
    c['named'] = draw(st.booleans())
    if kind in ('fe', 've') and draw(I(0, 7)) == 0:      # distances beyond the range of int
        c['scale'] = [draw(st.sampled_from([1, 997, 30011, 99991])) for _ in range(c['d'])]
        c['i'] = 'inf'
    c['perm'] = draw(st.randoms(use_true_random=False).map(lambda r: r.randint(0, 10**6)))
    return c


class P(Base):
    ID = 'C16'
    COUNT = {'quick': 12000, 'thorough': 250000}
    RULE = ('the polyhedra of C01-C06 with a random subset of the true facets (multiples, modulo the equations, raw or named, any representative of a class) or of the true vertices and rays as known data; the '
            'result has to be exactly that of the reference model. With --check, known data containing one row that is not a facet (not extremal) has to be rejected. Non-trivial: at least one '
            'valid known row and at least three rows in the result, or an invalid row')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        d = c['d']
        kind = c['kind']
        fe = kind in ('fe', 'symv')
        names, pre, maps = None, '', []
        if kind in ('symv', 'symh'):
            names = c05.names_of(d)
            maps = c['maps']
            pre = c05.header(names, maps)
        elif fe and c['named']:
            names = c05.names_of(d)
            pre = 'Names:\n' + ' '.join(names) + '\n'
        if kind == 'fe':
            V, R = c['V'], c['R']
        elif kind == 'symv':
            V, R = [v for o in c['orbits'] for v in o], [v for o in c['rays'] for v in o]
        elif kind == 've':
            A, E = c['I'], c['E']
        else:
            A, E = [v for o in c['orbits'] for v in o], [v for o in c['eqs'] for v in o]
        sc = c.get('scale')
        if sc and fe:
            V = [[x * k for x, k in zip(q([v])[0], sc)] for v in V]
            R = [[x * k for x, k in zip(r, sc)] for r in R]
        elif sc:
            A, E = ([[x * k for x, k in zip(r, sc + [1])] for r in M] for M in (A, E))
        if fe:
            if not V:
                raise Skip()
            ref = poly.facets(q(V), R, d)
            rr, piv, res = ref
            text = ppl.text_vertices(V, R, pre=pre)
        else:
            ref = poly.generators(A, E, d)
            rr, piv, res = ref
            if rr or not any(x[-1] for x in res):
                raise Skip()
            text = ppl.text_ineqs(A, E, pre=pre)
        res_l = sorted(res)
        if sc:
            if (fe and rr) or any(abs(x) >= 2**31 for r in list(res) + ([] if fe else list(A)) for x in r):
                raise Skip()
            if fe and any(x.denominator > 1 or abs(x) >= 2**31 for v in V for x in map(F, v)):
                raise Skip()
            if fe and any(abs(x) >= 2**31 for r in R for x in r):
                raise Skip()
            ctx.feature('large')
        known = [r for i, r in enumerate(res_l) if (c['subset'] >> (i % 16)) & 1]
        import random
        random.Random(c['perm']).shuffle(known)
        bad = self.bad_row(c, fe, ref, V if fe else A, R if fe else E)
        if c['bad'] and bad is None:
            raise Skip()
        if not known and bad is None:
            raise Skip()
        out_known = []
        for i, r in enumerate(known):
            r = list(r)
            if fe:
                for e, k in zip(rr, c['eq']):
                    if maps:
                        k = 0 if i % 2 else k
                    r = [x + k * y for x, y in zip(r, e)]
                r = [c['k'][i % 4] * x for x in r]
            out_known.append(r)
        if bad is not None:
            out_known.insert(c['perm'] % (len(out_known) + 1), list(bad))
        if fe:
            fmt = (lambda r: self.named(r, names)) if names and c['named'] else ppl.vrow
            kt = 'Inequalities:\n' + ''.join(fmt(r) + '\n' for r in out_known)
        else:
            vs = [r for r in out_known if r[-1]]
            rs = [r for r in out_known if not r[-1]]
            kt = ''
            if vs:
                kt += 'Vertices:\n' + ''.join(ppl.vrow([F(x, r[-1]) for x in r[:-1]]) + '\n' for r in vs)
            if rs:
                kt += 'Rays:\n' + ''.join(ppl.vrow(r[:-1]) + '\n' for r in rs)
        if any(abs(x) >= 2**31 for r in out_known for x in r):
            raise Skip()
        p = PAR[c['par']]
        if p == 'specific':
            p = '--known-facets=' if fe else '--known-vertices='
        # (paths are relative to the working directory of the run)
        o = opts_of(c, c['m']) + (['-k', 'known'] if p == '-k' else [p + 'known'])
        if c['c']:
            o.append(c['c'])
        ctx.feature(kind, c['m'], p, 'check' if c['c'] else None, 'invalid:%s' % c['bad'] if c['bad'] else 'valid', 'named' if names and c['named'] and fe else None, 'all known' if len(known) == len(res) else None)
        rc, out, err = ctx.panda(text, *o, files=[('known', kt)])
        if bad is not None:
            ctx.nontrivial = True
            if rc == 0:
                raise Viol('--check accepts known data that is not %s: %r' % ('a facet' if fe else 'extremal', bad))
            if out.strip():
                raise Viol('--check: rows are printed although the known data is invalid')
            if rc < 0:
                raise Viol('--check: invalid known data makes panda die from signal %d' % -rc)
            return
        ctx.nontrivial = len(known) >= 1 and len(res) >= 3
        if fe:
            eqs, iq = ppl.fe_output(rc, out, err, d, names, reduced=bool(maps))
            if maps:
                ppl.cmp_equations(eqs, rr)
                canon = lambda r: poly.reduce_mod(r, rr, piv)
                orbs = c05.orbits_of(res, maps, gen.act_row, canon)
                if sum(map(len, orbs)) != len(res):
                    raise Skip()
                c05.check_orbits(iq, [canon(r) for r in iq], orbs, 'inequality')
            else:
                ppl.cmp_facets(eqs, iq, V, R, d, ref)
        else:
            rows = ppl.ve_output(rc, out, err, d, c['m'], reduced=bool(maps))
            if maps:
                orbs = c05.orbits_of(res, maps, gen.act_generator, poly.primitive)
                if sum(map(len, orbs)) != len(res):
                    raise Skip()
                c05.check_orbits([ppl.show_h(r) for r in rows], rows, orbs, 'vertex / ray')
            else:
                ppl.cmp_generators(rows, A, E, d, ref)

    def named(self, r, names):
        t = ' '.join('%+d%s' % (x, n) for x, n in zip(r, names) if x) or '0' + names[0]
        return t + ' <= %d' % -r[-1]

    def bad_row(self, c, fe, ref, A, B):
        """a row that is not a facet / not extremal"""
        if not c['bad']:
            return None
        rr, piv, res = ref
        d = c['d']
        res_l = sorted(res)
        if not res_l:
            return None
        r = res_l[c['subset'] % len(res_l)]
        s = res_l[(c['subset'] // 7) % len(res_l)]
        if fe:
            gens = poly.homog(q(A), B)
            if c['bad'] == 'cut':           # shifted inwards: violated by some vertex / ray
                x = list(r)
                x[-1] += 1 + c['k'][0]
            elif c['bad'] == 'face':        # sum of two facets: a lower dimensional face (or none)
                x = [a + b for a, b in zip(r, s)]
            elif c['bad'] == 'strict':
                x = list(r)
                x[-1] -= c['k'][1]
            else:
                x = [(c['perm'] >> (3 * i)) % 5 - 2 for i in range(d + 1)]
            if poly.reduce_mod(x, rr, piv) in res:
                return None
            # the far face is tight for all rays: --check does not distinguish it from a facet
            tight = [g for g in gens if poly.dot(g, x) == 0]
            if all(poly.dot(g, x) <= 0 for g in gens) and all(g[-1] == 0 for g in tight) and tight:
                return None
            return x
        rows = list(A) + [[0] * d + [-1]]
        if c['bad'] == 'point' or c['bad'] == 'cut':
            x = [(c['perm'] >> (3 * i)) % 7 - 3 for i in range(d)] + [c['k'][0] if c['bad'] == 'point' else 1]
        elif c['bad'] == 'face':
            x = [a + b for a, b in zip(r, s)]
        else:
            x = [a + b + e for a, b, e in zip(r, s, res_l[0])]
        if not any(x) or (x[-1] == 0 and not any(x[:-1])):
            return None
        if poly.primitive(x) in res:
            return None
        return x


PROP = P()
