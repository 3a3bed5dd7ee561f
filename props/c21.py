from common import *
from algo import *
from c05 import orbits_of
"""orbits under groups of affine maps, with and without equations"""


@st.composite
def cases(draw):
    c = draw(gen.sym_h(24).filter(lambda x: x is not None))
    d, ms = c['d'], c['maps']
    b = draw(st.sampled_from([1, 2, 4]))
    pts = [[draw(I(-b, b)) for _ in range(d)] for _ in range(draw(I(1, 3)))]
    return {'d': d, 'maps': ms, 'rows': [o[draw(I(0, len(o) - 1))] for o in c['orbits']], 'extra': [draw(I(0, 40)) for _ in range(draw(I(0, 4)))],
            'pts': pts, 'ray': draw(st.booleans()), 'eqs': [e for o in c['eqs'] for e in o], 'orbits': c['orbits'], 't': draw(st.sampled_from(['32', '64', 'safe', 'inf'])), 'k': draw(I(1, 3))}


class P(Alg):
    ID = 'C21'
    COUNT = {'quick': 12000, 'thorough': 400000}
    RULE = ('finite groups of affine maps (C05), random points / rays / constraints: the image under a map, the class of a row (exactly its orbit), the representative (a member, the same for every member of the class) '
            'and the reduction of a list of rows to representatives (exactly one for each orbit); maps normalized with respect to equations map normalized constraints like the original maps do. '
            'Non-trivial: some orbit has at least three elements')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        d, ms, t = c['d'], c['maps'], c['t']
        mt = maps(ms, d)
        one = [maps([A], d) for A in ms]
        rr, piv = poly.rref(c['eqs']) if c['eqs'] else ([], [])
        ctx.feature('type ' + t)

        def part(rows, act, tag, what, closed=True):
            """rows: primitive"""
            orbs = {}
            for r in rows:
                o = gen._orbit(r, ms, lambda m, x: poly.primitive(act(m, x)), 60)
                if o is None:
                    raise Skip()
                orbs[r] = o
            cmds = []
            for r in rows:
                cmds += ['apply:%s %s %s' % (tag, m, row(r)) for m in one]
                cmds += ['class:%s %s %s' % (tag, mt, row(r)), 'rep:%s %s %s' % (tag, mt, row(r))]
            lst = [x for r in rows for k, x in enumerate(orbs[r]) if k % c['k'] == 0 or x == r]
            cmds.append('classes:%s %s %s' % (tag, mt, matrix(lst)))
            for r in rows:
                cmds += ['rep:%s %s %s' % (tag, mt, row(x)) for x in orbs[r][:6]]
            a = self.call(ctx, t, cmds)
            reps = {}
            for r in rows:
                for m in ms:
                    g = a.pop(0)
                    if g != poly.primitive(act(m, r)):
                        raise Viol('%s %r: image is %r, expected %r' % (what, r, g, poly.primitive(act(m, r))))
                cl = a.pop(0)
                rep = a.pop(0)
                if sorted(cl) != orbs[r]:
                    raise Viol('%s %r: class is %r, expected %r' % (what, r, sorted(cl), orbs[r]))
                if rep not in orbs[r]:
                    raise Viol('%s %r: representative %r does not belong to the class' % (what, r, rep))
                reps[r] = rep
            cs = a.pop(0)
            distinct = {tuple(orbs[r]): reps[r] for r in rows}
            if sorted(cs) != sorted(distinct.values()):
                raise Viol('classes of %r: %r, expected the representatives %r' % (lst, cs, sorted(distinct.values())))
            for r in rows:
                for x in orbs[r][:6]:
                    g = a.pop(0)
                    if g != reps[r]:
                        raise Viol('%s: %r and %r are in the same class, but have representatives %r and %r' % (what, r, x, reps[r], g))
            ctx.feature(what, 'orbit>=3' if any(len(o) >= 3 for o in orbs.values()) else None)
            if any(len(o) >= 3 for o in orbs.values()):
                ctx.nontrivial = True

        pts = sorted({poly.primitive(p + [1]) for p in c['pts']})
        if c['ray']:
            rays = sorted({poly.primitive(p + [0]) for p in c['pts'] if any(p)})
            pts = rays or pts
        part(pts, gen.act_generator, 'v', 'point')
        if not rr:
            part(sorted({poly.primitive(r) for r in c['rows']}), gen.act_row, 'f', 'constraint')
            return
        # modulo equations
        canon = lambda r: poly.reduce_mod(r, rr, piv)
        rows = sorted({canon(r) for r in c['rows']} - {tuple([0] * (d + 1))})
        if not rows:
            return
        big = max(abs(x) for r in rr for x in r)
        if big > 20:
            raise Skip()
        nm = self.call(ctx, t, ['normmaps %s %s' % (mt, matrix(rr))])
        ctx.feature('equations', 'lead>1' if any(r[p] > 1 for r, p in zip(rr, piv)) else None)
        for A, m in zip(ms, nm):
            if len(m) != d + 1:
                raise Viol('normalized map has %d images' % len(m))
            H = [[0] * (d + 1) for _ in range(d + 1)]
            for i, im in enumerate(m):
                for j, x in im:
                    H[i][j] += x
            for r in rows:
                got = canon([sum(r[i] * H[i][j] for i in range(d + 1)) for j in range(d + 1)])
                raw = poly.primitive([sum(r[i] * H[i][j] for i in range(d + 1)) for j in range(d + 1)])
                want = canon(gen.act_row(A, r))
                if got != want or raw != want:
                    raise Viol('normalized map maps %r to %r, expected %r (equations %r)' % (r, raw, want, rr))


PROP = P()
