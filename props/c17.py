from common import *
from algo import *
from math import gcd
"""linear algebra on rows and matrices for all integer types"""


def lcm(a, b):
    return abs(a * b) // gcd(a, b)


@st.composite
def cases(draw):
    t = draw(st.sampled_from(TYPES))
    n = draw(I(1, 6))
    b = draw(st.sampled_from([1, 2, 3, 6, 10, 100]))
    small = lambda k, n: draw(gen.pts(n, k, b))
    rows = small(draw(I(1, 8)), n)
    kind = draw(I(0, 3))
    if kind == 0 and len(rows) >= 2:       # dependent rows
        for _ in range(draw(I(1, 3))):
            i, j = draw(I(0, len(rows) - 1)), draw(I(0, len(rows) - 1))
            f = draw(st.sampled_from([1, -1, 2, 0]))
            rows.insert(draw(I(0, len(rows))), [f * x + y for x, y in zip(rows[i], rows[j])])
    elif kind == 1:                        # zero columns, sparse rows
        for r in rows:
            for j in range(n):
                if draw(I(0, 2)):
                    r[j] = 0
    return {'t': t, 'M': rows, 'v': small(1, n)[0], 'w': small(1, n)[0], 'f': draw(I(-b, b)), 'g': [draw(I(-b, b)) for _ in range(2)], 'big': [draw(st.one_of(I(-10, 10), I(-40000, 40000), I(-2**31 + 1, 2**31 - 1), I(-2**62, 2**62))) for _ in range(4)]}


class P(Alg):
    ID = 'C17'
    COUNT = {'quick': 25000, 'thorough': 800000}
    RULE = ('random matrices and rows (dense, sparse, dependent rows, zero rows and columns) for all five integer types: rank, equations of the linear span (as many as the rank requires, independent, satisfied by '
            'all rows), transposition, products, row arithmetic (binary and compound), gcd and lcm of rows and of pairs up to the limits of the type, normalization modulo equations, distance, furthest and nearest row are '
            'compared with exact values. Non-trivial: the matrix has at least two rows and its rank is less than the number of rows or columns')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        t, M, v, w, f = c['t'], c['M'], c['v'], c['w'], c['f']
        n = len(M[0])
        lim = LIMIT[t]
        rk = poly.rank(M)
        ctx.nontrivial = len(M) >= 2 and rk < max(len(M), n)
        ctx.feature('type ' + t, 'rank %d' % rk)
        # the kernels need products of minors: only use the small types if everything fits
        B = max([1] + [abs(x) for r in M + [v, w] for x in r])
        minor = 1
        for k in range(1, n + 1):
            minor *= B * k
        fits = 4 * minor * minor * B < min(lim, 1 << 62) or t == 'inf'
        cmds, want = [], []

        def ask(cmd, *check):
            cmds.append(cmd)
            want.extend(check)

        def eq(x, what):
            def check(a):
                if a != x:
                    raise Viol('%s (type %s): got %r, expected %r' % (what, t, a, x))
            return check
        tup = lambda r: tuple(r)
        if fits:
            nz = [r for r in M]
            ask('dim ' + matrix(nz), eq(rk, 'dimension of %r' % (M,)))

            def eqs(a):
                if poly.rank(a) != len(a) or len(a) != n - rk:
                    raise Viol('equations of %r: %d independent ones of %d, expected %d' % (M, poly.rank(a), len(a), n - rk))
                for e in a:
                    if any(poly.dot(e, r) for r in M):
                        raise Viol('equation %r is not satisfied by the rows %r' % (e, M))
            if 4 * minor * minor * B < min(lim, 1 << 62):
                ask('eqs ' + matrix(M), eqs)
        if 4 * B * B * n < lim:
            ask('transpose ' + matrix(M), eq([tup(x) for x in zip(*M)], 'transpose'))
            ask('mulv %s %s' % (matrix(M), row(v)), eq(tup(poly.dot(r, v) for r in M), 'matrix * row'))
            ask('add %s %s' % (row(v), row(w)), *[eq(tup(x + y for x, y in zip(v, w)), '+')] * 2)
            ask('sub %s %s' % (row(v), row(w)), *[eq(tup(x - y for x, y in zip(v, w)), '-')] * 2)
            ask('scale %s %d' % (row(v), f), *[eq(tup(x * f for x in v), '* %d' % f)] * 3)
            if f:
                ask('div %s %d' % (row([x * f for x in v]), f), *[eq(tup(v), 'exact / %d' % f)] * 2)
            ask('dot %s %s' % (row(v), row(w)), eq(poly.dot(v, w), 'scalar product'))
            ask('distance %s %s' % (row(v), row(w)), eq(-poly.dot(v, w), 'distance'), eq(-v[-1], 'rhs'))
            ds = [-poly.dot(v, r) for r in M]

            def ext(best):
                def check(a):
                    if list(a) not in M or -poly.dot(v, a) != best:
                        raise Viol('row of extreme distance: got %r' % (a,))
                return check
            ask('extreme %s %s' % (matrix(M), row(v)), ext(max(ds)), ext(min(ds)))
        g = 0
        for x in v:
            g = gcd(g, x)
        ask('gcd ' + row(v), eq(g, 'gcd of a row'))
        x, y = c['g']
        ask('gcd2 %d %d' % (x, y), eq(gcd(x, y), 'gcd(%d, %d)' % (x, y)))
        if x and y and abs(x * y) < lim:
            ask('lcm2 %d %d' % (x, y), eq(lcm(x, y), 'lcm(%d, %d)' % (x, y)))
        if all(v):
            l = 1
            for x in v:
                l = lcm(l, x)
            if l * B < lim:
                ask('lcm ' + row(v), eq(l, 'lcm of a row'))
        big = [x for x in c['big'] if abs(x) < lim]
        for x, y in zip(big, big[1:]):
            ask('gcd2 %d %d' % (x, y), eq(gcd(x, y), 'gcd(%d, %d)' % (x, y)))
        if big:
            g = 0
            for x in big:
                g = gcd(g, x)
            ask('gcd ' + row(big), eq(g, 'gcd of a row'))
        # normalization modulo equations in reduced echelon form
        rr, piv = poly.rref(M)
        m = max([1] + [abs(x) for r in rr for x in r])
        if (2 * m) ** len(rr) * B * n < min(lim, 1 << 40):
            red = poly.reduce_mod(v, rr, piv)
            ask('norm %s %s' % (row(v), matrix(rr, n)), eq(tup(red), 'normalization of %r modulo %r' % (v, rr)))
            ctx.feature('normalize')
        got = self.call(ctx, t, cmds)
        if len(got) != len(want):
            raise Viol('unexpected number of answers')
        for a, chk in zip(got, want):
            chk(a)


PROP = P()
