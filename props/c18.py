from common import *
"""bitsets = finite sets (the `max` argument is a bound of the elements)"""
SIZES = [1, 2, 3, 4, 6, 12, 40]


@st.composite
def cases(draw):
    t = draw(st.sampled_from([0, 0] + SIZES))
    cap = 32 * t if t else draw(st.sampled_from([1, 2, 31, 32, 33, 63, 64, 65, 96, 100, 128, 129, 400]))
    bits = draw(st.one_of(st.just(cap), I(1, cap)))
    # everything is below top; the bound passed to the operations is at least top
    top = draw(st.one_of(st.just(bits), I(1, bits)))
    elem = st.one_of(I(0, top - 1), st.sampled_from(sorted({max(0, min(top - 1, x)) for x in (0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, top - 1, top - 2)})))
    bound = st.one_of(st.just(top), st.just(bits), I(top, bits))
    reg = I(0, 4)
    op = st.one_of(st.tuples(st.just('s'), reg, elem), st.tuples(st.just('s'), reg, elem), st.tuples(st.just('s'), reg, elem), st.tuples(st.sampled_from('cv'), reg, reg), st.tuples(st.just('z'), reg),
                   st.tuples(st.just('m'), reg, reg, reg, bound), st.tuples(st.sampled_from('eku'), reg, reg, bound), st.tuples(st.just('n'), reg, bound), st.tuples(st.just('w'), reg, reg, reg, bound))
    ops = []
    # sets that differ in one or two elements decide most comparisons
    base = draw(st.sets(elem, max_size=12))
    for r in range(5):
        s = set(base)
        for _ in range(draw(I(0, 2))):
            s ^= {draw(elem)}
        if draw(I(0, 4)) == 0:
            s = set(draw(st.sets(elem, max_size=3)))
        if draw(I(0, 9)) == 0:
            s = set(range(top))
        ops += [['s', r, x] for x in sorted(s)]
    ops += [list(x) for x in draw(st.lists(op, min_size=1, max_size=40))]
    return {'type': t, 'bits': bits, 'ops': ops}


class P(Base):
    ID = 'C18'
    COUNT = {'quick': 20000, 'thorough': 600000}
    RULE = ('random histories of operations (set, copy, move, merge, equality, containment, cardinality, cardinality and containment of unions) on five bitsets of variable and of seven fixed sizes, with any admissible bound '
            'of the highest element; every answer is that of Python sets. Finally all five sets are compared with their models by containment and cardinality. Non-trivial: an element of at least 32 and at least three queries')

    def build(self):
        return {'bits': build.harness('bits.cpp', flags=('-O1', '-D_GLIBCXX_ASSERTIONS'), only=lambda b: b.startswith('bitset') or b == 'range.cpp')}

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        S = [set() for _ in range(8)]
        want = []
        ops = list(c['ops'])
        b = c['bits']
        ops += [['q', r] for r in range(5)]
        lines = ['%d %d' % (c['type'], b)]
        for o in ops:
            k = o[0]
            if k == 'q':        # compare with an independently built copy
                r = o[1]
                S[7] = set(S[r])
                lines += ['z 7'] + ['s 7 %d' % x for x in S[7]] + ['e %d 7 %d' % (r, b), 'k %d 7 %d' % (r, b), 'k 7 %d %d' % (r, b), 'n %d %d' % (r, b)]
                want += [(o, 1), (o, 1), (o, 1), (o, len(S[r]))]
                continue
            lines.append(' '.join(map(str, o)))
            if k == 's':
                S[o[1]].add(o[2])
            elif k == 'z':
                S[o[1]] = set()
            elif k == 'c':
                S[o[1]] = set(S[o[2]])
            elif k == 'v':
                x = S[o[2]]
                S[o[2]] = set()
                S[o[1]] = x
            elif k == 'm':
                S[o[1]] = S[o[2]] | S[o[3]]
            elif k == 'e':
                want.append((o, int(S[o[1]] == S[o[2]])))
            elif k == 'k':
                want.append((o, int(S[o[1]] >= S[o[2]])))
            elif k == 'n':
                want.append((o, len(S[o[1]])))
            elif k == 'u':
                want.append((o, len(S[o[1]] | S[o[2]])))
            elif k == 'w':
                want.append((o, int(S[o[1]] | S[o[2]] >= S[o[3]])))
        text = '\n'.join(lines) + '\n'
        rc, out, err = ctx.exec([ctx.env['bits']], stdin=text, note=text)
        got = out.split()
        ctx.feature('size %d' % c['type'])
        ctx.nontrivial = any(o[0] == 's' and o[2] >= 32 for o in c['ops']) and len(want) >= 23
        if rc != 0 or not got or got[-1] != 'end':
            raise Viol('the bitset program failed (%r): %s' % (rc, err[-300:]))
        if len(got) - 1 != len(want):
            raise Viol('%d answers for %d queries' % (len(got) - 1, len(want)))
        for (o, w), g in zip(want, got):
            if int(g) != w:
                raise Viol('%s: got %s, expected %d (type %d, %d bits)' % (' '.join(map(str, o)), g, w, c['type'], c['bits']))


PROP = P()
