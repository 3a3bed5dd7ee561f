from common import *
import gen
from c05 import names_of, header, judge_fe, judge_ve


@st.composite
def reduced(draw, base):
    c = draw(base)
    c['pick'] = [draw(I(0, 15)) for _ in range(len(c['orbits']) + len(c.get('rays', [])))]
    c['twice'] = draw(I(0, 3)) == 0
    c['addeq'] = draw(st.sampled_from([0, 0, 1, -1, 2])) if c.get('eqs') else 0
    return c


class P(Base):
    ID = 'C06'
    COUNT = {'quick': 9000, 'thorough': 250000}
    RULE = ('the symmetric polyhedra of C05, given by one (or two) arbitrary representatives per class in Reduced Vertices / Reduced Rays / Reduced Inequalities '
            '(representatives of inequalities also shifted by a multiple of an equation). Non-trivial: as C05')

    def strategy(self, env):
        nn = lambda x: x is not None
        return st.one_of(reduced(gen.sym_v().filter(nn)), reduced(gen.sym_h().filter(nn)))

    def judge(self, c, ctx):
        names = names_of(c['d'])
        pre = header(names, c['maps'])
        pick = list(c['pick'])

        def reps(orbits):
            out = []
            for o in orbits:
                k = pick.pop(0)
                out.append(o[k % len(o)])
                if c['twice'] and len(o) > 1:
                    out.append(o[(k + 1) % len(o)])
            return out
        if 'rays' in c:
            V = [v for o in c['orbits'] for v in o]
            R = [v for o in c['rays'] for v in o]
            rv = reps(c['orbits'])
            rr = reps(c['rays'])
            text = ppl.text_vertices(rv, rr, pre=pre, head_v='Reduced Vertices:', head_r='Reduced Rays:')
            ctx.feature('fewer rows' if len(rv) < len(V) else None)
            judge_fe(c, ctx, text, V, R, c['maps'], names)
        else:
            I_ = [v for o in c['orbits'] for v in o]
            E_ = [v for o in c['eqs'] for v in o]
            ri = reps(c['orbits'])
            if E_ and c['addeq']:
                ri = [[x + c['addeq'] * e for x, e in zip(r, E_[0])] for r in ri]
            text = pre + (('Equations:\n' + ''.join(ppl.vrow(r) + '\n' for r in E_)) if E_ else '') + 'Reduced Inequalities:\n' + ''.join(ppl.vrow(r) + '\n' for r in ri)
            ctx.feature('fewer rows' if len(ri) < len(I_) else None)
            judge_ve(c, ctx, text, I_, E_, c['maps'])


PROP = P()
