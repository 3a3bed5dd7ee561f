"""a conversion problem with its exact answer (cases drawn by problems())"""
from common import *
import c05


@st.composite
def problems(draw, dmax=4, kinds=('fe', 'fe', 've', 've', 'symv', 'symh')):
    kind = draw(st.sampled_from(kinds))
    small = lambda c: c['fam'] != 'many'
    if kind == 'fe':
        c = draw(gen.v_polyhedron(dmax=dmax).filter(small))
    elif kind == 've':
        c = draw(gen.h_polyhedron(dmax=dmax).filter(small))
    else:
        c = draw((gen.sym_v() if kind == 'symv' else gen.sym_h()).filter(lambda x: x is not None))
    c['kind'] = kind
    c['named'] = draw(st.booleans())
    return c


class Problem:
    def __init__(self, c):
        d = self.d = c['d']
        kind = c['kind']
        self.fe = kind in ('fe', 'symv')
        self.names, self.maps, pre = None, [], ''
        if kind in ('symv', 'symh'):
            self.names = c05.names_of(d)
            self.maps = c['maps']
            pre = c05.header(self.names, self.maps)
        elif self.fe and c['named']:
            self.names = c05.names_of(d)
            pre = 'Names:\n' + ' '.join(self.names) + '\n'
        if kind == 'fe':
            self.A, self.B = c['V'], c['R']
        elif kind == 'symv':
            self.A, self.B = [v for o in c['orbits'] for v in o], [v for o in c['rays'] for v in o]
        elif kind == 've':
            self.A, self.B = c['I'], c['E']
        else:
            self.A, self.B = [v for o in c['orbits'] for v in o], [v for o in c['eqs'] for v in o]
        if self.fe:
            if not self.A:
                raise Skip()
            self.ref = poly.facets(q(self.A), self.B, d)
            self.text = ppl.text_vertices(self.A, self.B, pre=pre)
        else:
            self.ref = poly.generators(self.A, self.B, d)
            if self.ref[0] or not any(x[-1] for x in self.ref[2]):
                raise Skip()
            self.text = ppl.text_ineqs(self.A, self.B, pre=pre)
        self.rr, self.piv, self.res = self.ref
        self.canon = (lambda r: poly.reduce_mod(r, self.rr, self.piv)) if self.fe else poly.primitive
        self.orbs = None
        if self.maps:
            self.orbs = c05.orbits_of(self.res, self.maps, gen.act_row if self.fe else gen.act_generator, self.canon)
            if sum(map(len, self.orbs)) != len(self.res):
                raise Skip()

    @property
    def rows(self):
        return len(self.orbs) if self.maps else len(self.res)

    def parse(self, rc, out, err, mode):
        if self.fe:
            return ppl.fe_output(rc, out, err, self.d, self.names, reduced=bool(self.maps))
        return [], ppl.ve_output(rc, out, err, self.d, mode, reduced=bool(self.maps))

    def exact(self, rc, out, err, mode):
        """the output is the exact answer"""
        eqs, rows = self.parse(rc, out, err, mode)
        if self.maps:
            if self.fe:
                ppl.cmp_equations(eqs, self.rr)
            c05.check_orbits([ppl.show_h(r) if not self.fe else r for r in rows], [self.canon(r) for r in rows], self.orbs, 'inequality' if self.fe else 'vertex / ray')
        elif self.fe:
            ppl.cmp_facets(eqs, rows, self.A, self.B, self.d, self.ref)
        else:
            ppl.cmp_generators(rows, self.A, self.B, self.d, self.ref)
        return rows

    def partial(self, out, err, mode):
        """the output consists of right rows, none of them twice (nothing needs to be complete)"""
        try:
            eqs, rows = self.parse(0, out, err, mode)
        except Viol as e:
            if 'unexpected sections' in str(e) and self.fe and set(ppl.sections(out, self.names)) <= {'Equations'}:
                eqs, rows = ppl.ints(ppl.sections(out, self.names).get('Equations', []), 'equations'), []
            else:
                raise
        for e in eqs:
            if any(poly.reduce_mod(e, self.rr, self.piv)):
                raise Viol('printed equation is not valid: %r' % (e,))
        seen = set()
        for r in rows:
            k = self.canon(r)
            if k not in self.res:
                raise Viol('printed row is not part of the result: %r' % (r,))
            if self.maps:
                k = next(i for i, o in enumerate(self.orbs) if k in o)
            if k in seen:
                raise Viol('printed twice%s: %r' % (' (same class)' if self.maps else '', r))
            seen.add(k)
        return rows

    def known(self, rows):
        """text of a file with known data"""
        if self.fe:
            return 'Inequalities:\n' + ''.join(ppl.vrow(r) + '\n' for r in rows)
        vs = [r for r in rows if r[-1]]
        rs = [r for r in rows if not r[-1]]
        kt = ''
        if vs:
            kt += 'Vertices:\n' + ''.join(ppl.vrow([F(x, r[-1]) for x in r[:-1]]) + '\n' for r in vs)
        if rs:
            kt += 'Rays:\n' + ''.join(ppl.vrow(r[:-1]) + '\n' for r in rs)
        return kt
