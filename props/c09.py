from common import *

LIM = 2**31


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['small', 'fe', 'fe', 've', 've']))
    m = draw(st.sampled_from(['dd', 'ad']))
    if kind == 'small':
        d = draw(I(1, 3))
        if draw(st.booleans()):
            return {'kind': 'fe', 'small': 1, 'd': d, 'm': m, 'V': draw(gen.pts(d, draw(I(1, 7)), 1, draw(I(-1, 0)))), 'R': [r for r in draw(gen.pts(d, draw(I(0, 1)), 1, 0)) if any(r)]}
        A = []
        for i in range(d):
            e = [0] * (d + 1)
            e[i], e[d] = 1, -draw(I(0, 2))
            A.append(e)
            e = [0] * (d + 1)
            e[i], e[d] = -1, -draw(I(0, 1))
            A.append(e)
        return {'kind': 've', 'small': 1, 'd': d, 'm': m, 'I': A + draw(gen.pts(d + 1, draw(I(0, 2)), 1)), 'E': []}
    d = draw(I(1, 3))
    how = draw(st.sampled_from(['rand', 'shift', 'scale', 'edge']))
    B = draw(st.sampled_from([10, 100, 1000, 1289, 1291, 20000, 46340, 46341, 70000, 10**6, 10**9, LIM - 1]))
    n = draw(I(1, 6 if d > 1 else 3))
    c = {'kind': kind, 'd': d, 'm': m, 'how': how, 'B': B}
    w = d if kind == 'fe' else d + 1
    big = lambda: st.one_of(I(-B, B), st.sampled_from([B, -B, B - 1, 1 - B]))
    if how == 'rand':
        P = [[draw(big()) for _ in range(w)] for _ in range(n)]
    elif how == 'edge':
        P = [[draw(st.sampled_from([0, 1, -1, B, -B, B - 1])) for _ in range(w)] for _ in range(n)]
    else:
        P = draw(gen.pts(d, n + 2, 2))
        if how == 'scale':
            k = max(1, B // 2)
            P = [[k * x for x in p] for p in P]
        else:
            t = [draw(I(2 - B, B - 2)) if B > 10 else 0 for _ in range(d)]
            P = [[x + y for x, y in zip(p, t)] for p in P]
        if kind == 've':
            P = [p + [draw(st.one_of(big(), I(-3, 0)))] for p in P]
    if kind == 'fe':
        c['V'] = P
        c['R'] = [r for r in draw(gen.pts(d, draw(st.sampled_from([0, 0, 0, 1])), draw(st.sampled_from([1, B])))) if any(r)]
    else:
        c['I'] = P
        c['E'] = draw(gen.pts(w, draw(st.sampled_from([0, 0, 0, 1])), draw(st.sampled_from([1, 3]))))
    return c


fits = lambda rows: all(-LIM < x < LIM for r in rows for x in r)


class P(Base):
    ID = 'C09'
    COUNT = {'quick': 9000, 'thorough': 200000}
    RULE = ('polyhedra in dimension 1-3 with entries up to 2^31-1 (random, shifted and scaled small ones, at the limits of the int range). -i inf has to print the exact result if it is representable, '
            'and has to fail otherwise; -i safe has to print only correct rows, all of them if it succeeds; -i 64 agrees if -i safe succeeds; all six types have to be exact for tiny polyhedra. '
            'Non-trivial: the numbers exceed 2^31 in some type-dependent step (some entry of the result or product of two entries), or all six types compared on at least three rows')

    def strategy(self, env):
        return cases()

    evaluations_per_case = staticmethod(lambda c: 6 if c.get('small') else 3)

    def run(self, c, ctx, i):
        o = ['-m', c['m'], '-t', '2'] + (['-i', i] if i else [])
        text = fe_text(c) if c['kind'] == 'fe' else ve_text(c)
        return ctx.panda(text, *o)

    def judge(self, c, ctx):
        d = c['d']
        fe = c['kind'] == 'fe'
        if fe:
            ref = poly.facets(q(c['V']), c['R'], d)
            rr, piv, fs = ref
            unique = not rr
            result = fs
            empty = False
        else:
            ref = poly.generators(c['I'], c['E'], d)
            lin, piv, g = ref
            empty = not any(x[-1] for x in g)
            unique = not lin and not empty
            result = g
        ctx.feature(c['kind'], c['m'], 'how:' + c.get('how', 'tiny'))
        if c.get('small'):
            ctx.nontrivial = len(c.get('V', c.get('I'))) >= 3
            if empty or (not fe and ref[0]):
                raise Skip()
            for i in (None, '16', '32', '64', 'safe', 'inf'):
                rc, out, err = self.run(c, ctx, i)
                self.check(c, ref, rc, out, err, 'type %s: ' % i)
            return
        mx = max([abs(x) for r in c.get('V', c.get('I')) for x in r] + [0])
        ctx.nontrivial = mx * mx >= LIM or not fits(result)
        ok = {}
        for i in ('safe', 'inf', '64'):
            if i == '64' and not ok.get('safe'):
                continue        # documented: overflows may be silent
            rc, out, err = self.run(c, ctx, i)
            ok[i] = rc == 0
            ctx.feature('-i %s %s' % (i, 'exact' if rc == 0 else 'error'))
            if rc == 0:
                if empty:
                    if any(r[-1] for r in ppl.ve_output(rc, out, err, d, c['m'])):
                        raise Viol('vertex printed for an empty polyhedron')
                    continue
                self.check(c, ref, rc, out, err, '-i %s: ' % i)
                continue
            if not err.strip():
                raise Viol('-i %s: fails without a message' % i)
            if rc < 0 and rc != -6:
                raise Viol('-i %s: dies from signal %d' % (i, -rc))
            if i == 'inf' and unique and fits(result):
                raise Viol('-i inf: fails although the result is representable: %s' % err.strip()[-150:])
            if i == '64':
                raise Viol('-i 64 fails although -i safe succeeds')
            if not empty:
                self.partial(c, ref, out, '-i %s: ' % i)
        # safe may give up, but not if nothing is large
        if not ok['safe'] and ok['inf'] and mx <= 100 and len(c.get('V', c.get('I'))) <= 6:
            raise Viol('-i safe fails for small numbers')

    def check(self, c, ref, rc, out, err, pre):
        d = c['d']
        try:
            if c['kind'] == 'fe':
                eqs, iq = ppl.fe_output(rc, out, err, d)
                ppl.cmp_facets(eqs, iq, c['V'], c['R'], d, ref)
            else:
                ppl.cmp_generators(ppl.ve_output(rc, out, err, d, c['m']), c['I'], c['E'], d, ref)
        except Viol as v:
            raise Viol(pre + str(v))

    def partial(self, c, ref, out, pre):
        """every complete line printed before the error has to be correct"""
        d = c['d']
        if not out.endswith('\n'):
            out = out[:out.rfind('\n') + 1]
        S = ppl.sections(out)
        a, piv, res = ref
        if c['kind'] == 'fe':
            for r in ppl.ints(S.get('Equations', []), 'equations'):
                if len(r) == d + 1 and any(poly.reduce_mod(r, a, piv)):
                    raise Viol(pre + 'wrong equation printed before the error: %r' % (r,))
            for r in ppl.ints(S.get('Inequalities', []), 'inequalities'):
                if len(r) == d + 1 and poly.reduce_mod(r, a, piv) not in res:
                    raise Viol(pre + 'wrong inequality printed before the error: %r' % (r,))
            return
        rows = [poly.primitive(r) for r in ppl.ints(S.get('Vertices / Rays', []), 'vertices / rays') if len(r) == d + 1]
        rows += poly.homog([r for r in S.get('Vertices', []) if len(r) == d], [tuple(map(int, r)) for r in S.get('Rays', []) if len(r) == d])
        for r in rows:
            x = poly.reduce_mod(r, a, piv) if a else r
            if any(x) and x not in res:
                raise Viol(pre + 'wrong row printed before the error: %s' % ppl.show_h(r))


PROP = P()
