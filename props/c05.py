from common import *
import gen


def names_of(d, style='x'):
    return ['%s%d' % (style, i + 1) for i in range(d)]


def image_text(row, names):
    """one image of a map, e.g. -x1+2x3-1 (no white space)"""
    s = ''
    for c, n in zip(row, names + ['']):
        if c == 0:
            continue
        if n == '':
            t = '%d' % abs(c)
        else:
            t = ('' if abs(c) == 1 else '%d' % abs(c)) + n
        s += ('-' if c < 0 else ('+' if s else '')) + t
    return s or '0' + names[0]


def header(names, maps):
    return 'Names:\n' + ' '.join(names) + '\nMaps:\n' + ''.join(' '.join(image_text(r, names) for r in A) + '\n' for A in maps)


def orbits_of(rows, maps, act, canon):
    """partition a set of canonical rows (closed under the group) into orbits"""
    rows = set(rows)
    out = []
    while rows:
        x = min(rows)
        seen = {x}
        todo = [x]
        while todo:
            y = todo.pop()
            for m in maps:
                z = canon(act(m, y))
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        out.append(seen)
        rows -= seen
    return out


def judge_fe(c, ctx, text, V, R, maps, names, known=None):
    d = c['d']
    ref = poly.facets(q(V), R, d)
    rr, piv, fs = ref
    canon = lambda r: poly.reduce_mod(r, rr, piv)
    orbs = orbits_of(fs, maps, gen.act_row, canon)
    if sum(map(len, orbs)) != len(fs):
        raise Skip()
    ctx.nontrivial = len(orbs) < len(fs) and len(fs) >= 3
    ctx.feature('fe', c['m'], 'equations' if rr else 'full-dim', 'rays' if R else None, 'orbits>=3' if len(orbs) >= 3 else None,
                'lead>1' if any(r[p] > 1 for r, p in zip(rr, piv)) else None)
    rc, out, err = ctx.panda(text, *opts_of(c, c['m']))
    eqs, iq = ppl.fe_output(rc, out, err, d, names, reduced=True)
    ppl.cmp_equations(eqs, rr)
    red = [canon(r) for r in iq]
    check_orbits(iq, red, orbs, 'inequality')


def check_orbits(rows, red, orbs, what):
    count = [0] * len(orbs)
    for r, x in zip(rows, red):
        k = [i for i, o in enumerate(orbs) if x in o]
        if not k:
            raise Viol('printed %s %r does not belong to the polyhedron' % (what, r))
        count[k[0]] += 1
        if count[k[0]] > 1:
            raise Viol('two representatives of the same class printed: %r (%d classes, %d printed)' % (r, len(orbs), len(rows)))
    for o, n in zip(orbs, count):
        if n == 0:
            raise Viol('no representative printed for the class of the %s %r' % (what, min(o)))


def judge_ve(c, ctx, text, ineqs, eqs, maps):
    d = c['d']
    lin, piv, g = poly.generators(ineqs, eqs, d)
    if lin or not any(x[-1] for x in g):
        raise Skip()            # not pointed or empty
    orbs = orbits_of(g, maps, gen.act_generator, poly.primitive)
    if sum(map(len, orbs)) != len(g):
        raise Skip()
    ctx.nontrivial = len(orbs) < len(g) and len(g) >= 3
    ctx.feature('ve', c['m'], 'equations' if eqs else None, 'rays' if any(x[-1] == 0 for x in g) else 'bounded', 'orbits>=3' if len(orbs) >= 3 else None)
    rc, out, err = ctx.panda(text, *opts_of(c, c['m']))
    rows = ppl.ve_output(rc, out, err, d, c['m'], reduced=True)
    check_orbits([ppl.show_h(r) for r in rows], rows, orbs, 'vertex / ray')


class P(Base):
    ID = 'C05'
    COUNT = {'quick': 9000, 'thorough': 250000}
    RULE = ('finite groups of affine maps (block permutations and reflections x -> k-x, conjugated by random integer shears), polyhedra given by orbits of random '
            'points / rays / constraints, -m dd and -m ad with 1-4 threads. Non-trivial: the result has at least three elements and fewer classes than elements')

    def strategy(self, env):
        nn = lambda x: x is not None
        return st.one_of(gen.sym_v().filter(nn), gen.sym_h().filter(nn))

    def judge(self, c, ctx):
        names = names_of(c['d'])
        pre = header(names, c['maps'])
        if 'rays' in c:
            V = [v for o in c['orbits'] for v in o]
            R = [v for o in c['rays'] for v in o]
            judge_fe(c, ctx, ppl.text_vertices(V, R, pre=pre), V, R, c['maps'], names)
        else:
            I_ = [v for o in c['orbits'] for v in o]
            E_ = [v for o in c['eqs'] for v in o]
            judge_ve(c, ctx, ppl.text_ineqs(I_, E_, pre=pre), I_, E_, c['maps'])


PROP = P()
