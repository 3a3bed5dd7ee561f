from common import *
import render, c05, c02


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['fe', 'fe', 've', 've', 'symv', 'symh']))
    small = lambda c: c.get('fam') != 'many'
    if kind == 'fe':
        c = draw(gen.v_polyhedron(dmax=4).filter(small))
        c['declare'] = draw(st.booleans())
    elif kind == 've':
        c = draw(gen.h_polyhedron(dmax=4).filter(small))
        c['declare'] = draw(I(0, 3)) > 0
    else:
        c = draw((gen.sym_v() if kind == 'symv' else gen.sym_h()).filter(lambda x: x is not None))
        c['reduced'] = draw(st.booleans())
    c['kind'] = kind
    c['names'] = draw(I(0, len(render.NAME_SETS) - 1))
    c['noise'] = {'seed': draw(I(0, 10**6)), 'on': [f for f in render.FLAGS if draw(st.booleans())] if draw(st.booleans()) else draw(st.lists(st.sampled_from(render.FLAGS), max_size=8, unique=True))}
    c['m'] = draw(st.sampled_from(['dd', 'dd', 'ad']))
    return c


def text_of(c):
    d = c['d']
    names = render.names_for(c['names'], d)
    if c['kind'] in ('fe', 've'):
        use = names if c['declare'] else []
        doc = [('names', use)] if use else []
        doc += [(k, c[k]) for k in (('V', 'R') if c['kind'] == 'fe' else ('E', 'I')) if c[k]]
        return render.Renderer(c['noise'], use, d).render(doc)
    doc = [('names', names), ('maps', c['maps'])]
    red = 'R' if c['reduced'] else ''
    rows = lambda os: [v for o in os for v in (o[:1] if red else o)]
    if c['kind'] == 'symv':
        doc += [(red + 'V', rows(c['orbits']))]
        if c['rays']:
            doc += [(red + 'R', rows(c['rays']))]
    else:
        if c['eqs']:
            doc += [('E', [v for o in c['eqs'] for v in o])]
        doc += [(red + 'I', rows(c['orbits']))]
    return render.Renderer(c['noise'], names, d).render(doc)


class P(Base):
    ID = 'C10'
    COUNT = {'quick': 16000, 'thorough': 300000}
    RULE = ('polyhedra (with and without symmetry maps, complete and reduced) written in a random combination of %d kinds of equivalent spellings (keywords, line ends, blank lines, blanks and tabs, identifiers, '
            'fractions, dimension, END, missing final newline, names, relation operators, order / signs / factors of terms, order of sections); the output must be exactly the result of the reference '
            'model. Non-trivial: at least three kinds of spelling are used and the result has at least two rows' % len(render.FLAGS))

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        d = c['d']
        names = render.names_for(c['names'], d)
        noise = c['noise']
        ctx.feature(c['kind'], 'names:%d' % c['names'], *['noise:' + f for f in noise['on']])
        text = text_of(c)
        if c['kind'] in ('fe', 've'):
            use = names if c['declare'] else []
            if c['kind'] == 'fe':
                if not c['V']:
                    raise Skip()
                ref = poly.facets(q(c['V']), c['R'], d)
                rc, out, err = ctx.panda(text, *opts_of(c, c['m']))
                eqs, iq = ppl.fe_output(rc, out, err, d, use or None)
                ppl.cmp_facets(eqs, iq, c['V'], c['R'], d, ref)
                n = len(iq) + len(eqs)
            else:
                ref = poly.generators(c['I'], c['E'], d)
                rc, out, err = ctx.panda(text, *opts_of(c, c['m']))
                rows = ppl.ve_output(rc, out, err, d, c['m'])
                n = len(rows)
                if any(g[-1] for g in ref[2]):
                    ppl.cmp_generators(rows, c['I'], c['E'], d, ref)
                elif any(r[-1] for r in rows):
                    raise Viol('vertex printed for an empty polyhedron')
            ctx.nontrivial = n >= 2 and len(noise['on']) >= 3
            return
        maps = c['maps']
        if c['kind'] == 'symv':
            V = [v for o in c['orbits'] for v in o]
            R = [v for o in c['rays'] for v in o]
            c05.judge_fe(c, ctx, text, V, R, maps, names)
        else:
            I_ = [v for o in c['orbits'] for v in o]
            E_ = [v for o in c['eqs'] for v in o]
            c05.judge_ve(c, ctx, text, I_, E_, maps)
        ctx.nontrivial = ctx.nontrivial and len(noise['on']) >= 3


PROP = P()
