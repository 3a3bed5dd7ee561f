"""Hypothesis strategies for polyhedra.  All data are JSON-able: ints or 'p/q'."""
from fractions import Fraction as F
from hypothesis import strategies as st

I = st.integers


def pts(d, n, b, lo=None):
    return st.lists(st.tuples(*[I(-b if lo is None else lo, b)] * d).map(list), min_size=n, max_size=n)


def _mul(M, v, t):
    return [sum(a * x for a, x in zip(r, v)) + c for r, c in zip(M, t)]


@st.composite
def structured_points(draw, dmax=4):
    """vertex sets of well-known polytopes, built by products, pyramids, bipyramids,
    prisms, joins from a point -- highly degenerate, many facets"""
    P = [[]]
    d = 0
    while d < dmax:
        if d >= 1 and draw(I(0, 4)) == 0:
            break
        op = draw(st.sampled_from(['prism', 'pyramid', 'bipyramid', 'polygon'] if d >= 1 else ['prism', 'polygon']))
        if op == 'prism':
            if len(P) > 12:
                break
            P = [p + [0] for p in P] + [p + [draw(I(1, 2))] for p in P] if draw(I(0, 3)) == 0 else [p + [x] for p in P for x in (0, 1)]
            d += 1
        elif op == 'pyramid':
            P = [p + [0] for p in P] + [[draw(I(0, 1)) for _ in range(d)] + [1]]
            d += 1
        elif op == 'bipyramid':
            c = draw(st.sampled_from([0, 1]))
            P = [p + [0] for p in P] + [[c] * d + [1], [c] * d + [-1]]
            d += 1
        else:
            if d + 2 > dmax or len(P) > 4:
                P = [p + [x] for p in P for x in (0, 1)] if len(P) <= 8 else [p + [0] for p in P] + [[0] * d + [1]]
                d += 1
            else:
                k = draw(I(3, 6))
                G = [[t, t * t] for t in range(k)]
                P = [p + g for p in P for g in G]
                d += 2
    P = [p for i, p in enumerate(P) if p not in P[:i]]
    return d, P


@st.composite
def high_points(draw):
    """0/1 (or -1/0/1) points in dimension 6 to 9: very degenerate, many facets"""
    d = draw(st.sampled_from([6, 7, 7, 8, 8, 9]))
    n = draw(I(d + 2, min(2 * d + 3, 20)))
    kind = draw(st.sampled_from(['01', '01', '01', 'sparse', 'pm'])) if d < 9 else '01'
    if kind == 'pm':
        d, n = min(d, 7), min(n, 15)
    bits = draw(st.lists(I(0, 2 ** d - 1), min_size=n, max_size=n, unique=True))
    V = [[b >> i & 1 for i in range(d)] for b in bits]
    if kind == 'sparse':
        V = [[x & (m >> i) for i, x in enumerate(v)] for v, m in zip(V, draw(st.lists(I(0, 2 ** d - 1), min_size=n, max_size=n)))]
    elif kind == 'pm':
        V = [[x * (1 - 2 * (m >> i & 1)) for i, x in enumerate(v)] for v, m in zip(V, draw(st.lists(I(0, 2 ** d - 1), min_size=n, max_size=n)))]
    return d, V


@st.composite
def high(draw, kind):
    d, V = draw(high_points())
    it = draw(st.sampled_from(['64', '64', 'safe', 'inf']))
    if kind == 'v':
        R = [r for r in draw(pts(d, 1, 1)) if any(r)] if draw(I(0, 4)) == 0 else []
        return {'d': d, 'V': V, 'R': R, 'i': it, 'fam': 'high'}
    how = draw(st.sampled_from(['polar', 'polar', 'pm', 'cone', 'box']))
    if how == 'polar':
        A = [v + [-1] for v in V]
    elif how == 'pm':
        A = [[1 - 2 * x for x in v] + [-1] for v in V]
    elif how == 'cone':
        A = [v + [0] for v in V] + [[-1] * d + [-1]]
    else:
        A = [v + [-draw(I(1, 2))] for v in V[:6]]
        for i in range(d):
            A.append([-int(i == j) for j in range(d)] + [0])
            if d < 8:
                A.append([int(i == j) for j in range(d)] + [-1])
    return {'d': d, 'I': A, 'E': [], 'i': it, 'fam': 'high'}


@st.composite
def many_points(draw):
    kind = draw(st.sampled_from(['polygon', 'cyclic', 'cloud', 'prism']))
    if kind == 'polygon':
        n = draw(st.sampled_from([63, 64, 65, 66, 80, 127, 128, 129, 130]))
        P = [[t, t * t] for t in range(-(n // 2), n - n // 2)]
        d = 2
    elif kind == 'cyclic':
        n = draw(st.sampled_from([17, 33, 48, 65]))
        P = [[t, t * t, t ** 3] for t in range(-(n // 2), n - n // 2)]
        d = 3
    elif kind == 'prism':
        n = draw(st.sampled_from([17, 32, 33, 40]))
        P = [[t, t * t, h] for t in range(-(n // 2), n - n // 2) for h in (0, 1)]
        d = 3
    else:
        d = draw(I(2, 3))
        P = draw(pts(d, draw(st.sampled_from([66, 129])), 2))
    return d, [list(x) for x in draw(st.permutations(P))]


@st.composite
def affine_map(draw, d, e, b=2):
    M = [[draw(I(-b, b)) for _ in range(d)] for _ in range(e)]
    for i in range(min(d, e)):
        if draw(I(0, 3)):
            M[i][i] = draw(st.sampled_from([1, -1, 2]))
    t = [draw(I(-b, b)) for _ in range(e)]
    return M, t


@st.composite
def v_polyhedron(draw, dmax=5, rays=True, fractions=True):
    """case of facet enumeration: {'d','V','R','i'}; i = integer type to use (None: default)"""
    fam = draw(st.sampled_from(['box', 'box', '01', 'struct', 'struct', 'big', 'frac', 'low', 'sparse'] * 6 + ['many']))
    it = draw(st.sampled_from([None, None, '64', 'safe', 'inf']))
    R = []
    if fam == 'many':           # more rows than a machine word (or two) has bits
        d, V = draw(many_points())
        it = draw(st.sampled_from(['64', '64', 'safe', 'inf']))
    elif fam == 'box':
        d = draw(I(1, 4))
        V = draw(pts(d, draw(I(1, 10)), draw(I(1, 3))))
    elif fam == '01':
        d = draw(I(2, min(5, dmax)))
        V = draw(pts(d, draw(I(2, 13)), 1, 0))
    elif fam == 'struct':
        d, V = draw(structured_points(min(4, dmax)))
        if draw(I(0, 2)) == 0:
            M, t = draw(affine_map(d, d))
            V = [_mul(M, v, t) for v in V]
        it = it if d <= 3 or it else '64'
    elif fam == 'big':
        d = draw(I(1, 3))
        V = draw(pts(d, draw(I(2, 9)), draw(st.sampled_from([10, 40, 100]))))
        it = it if (it and it != '64') else 'inf'
    elif fam == 'frac':
        d = draw(I(1, 3))
        n = draw(I(1, 8))
        V = [[draw(fracs()) for _ in range(d)] for _ in range(n)] if fractions else draw(pts(d, n, 4))
        it = it if (it and it != '64') else 'inf'
    elif fam == 'low':
        k = draw(I(0, 3))
        d = draw(I(max(1, k), 5))
        B = draw(pts(k, draw(I(1, 9)), 2)) if k else [[]]
        M, t = draw(affine_map(k, d))
        V = [_mul(M, v, t) for v in B]
        if rays and draw(I(0, 3)) == 0:
            R = [_mul(M, r, [0] * d) for r in draw(pts(k, draw(I(1, 2)), 1))]
        it = it or '64'
    else:
        d = draw(I(2, 5))
        n = draw(I(2, 10))
        V = []
        for _ in range(n):
            v = [0] * d
            for _ in range(draw(I(0, 2))):
                v[draw(I(0, d - 1))] = draw(st.sampled_from([1, -1, 2, 3, -3]))
            V.append(v)
    if rays and fam not in ('low', 'struct', 'many') and draw(I(0, 2)) == 0:
        R = draw(pts(d, draw(I(1, 3)), draw(st.sampled_from([1, 1, 2, 3]))))
    R = [r for r in R if any(r)]
    # redundancy: duplicates, midpoints
    if draw(I(0, 5)) == 0 and len(V) >= 2:
        V = V + [V[draw(I(0, len(V) - 1))]]
    return {'d': d, 'V': V, 'R': R, 'i': it, 'fam': fam}


@st.composite
def fracs(draw):
    q = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 6]))
    p = draw(I(-6, 6))
    return p if q == 1 else '%d/%d' % (p, q)


@st.composite
def h_polyhedron(draw, dmax=4, bounded=None):
    """case of vertex enumeration: {'d','I','E'}; rows (c, -b): c.x - b <= 0"""
    fam = draw(st.sampled_from(['rand', 'rand', 'box', 'dual', 'dual', 'cone', 'big', 'eq', 'zeros'] * 6 + ['many']))
    it = draw(st.sampled_from([None, None, '64', 'safe', 'inf']))
    E = []
    if fam == 'many':           # polar of a polytope with many vertices
        d, P = draw(many_points())
        A = [r + [-1] for r in P]
        if draw(I(0, 1)):
            A = [[2 * t, -1, -t * t] for t in draw(st.permutations(range(-len(P) // 2, len(P) // 2)))] if d == 2 else A
        it = draw(st.sampled_from(['64', '64', 'safe', 'inf']))
    elif fam == 'rand':
        d = draw(I(1, 4))
        A = draw(pts(d + 1, draw(I(1, 9)), draw(I(1, 3))))
    elif fam == 'box':          # a box (bounded) cut by random half spaces
        d = draw(I(1, min(dmax, 4)))
        A = []
        for i in range(d):
            e = [0] * (d + 1)
            e[i] = 1
            e[d] = -draw(I(0, 3))
            A.append(e)
            e = [0] * (d + 1)
            e[i] = -1
            e[d] = -draw(I(0, 1))
            A.append(e)
        A += draw(pts(d + 1, draw(I(0, 5)), draw(I(1, 2))))
    elif fam == 'dual':         # polar of a structured polytope: degenerate / simple ones
        d, P = draw(structured_points(min(4, dmax)))
        s = draw(st.sampled_from([1, 2, 3]))
        c = [draw(I(0, 1)) for _ in range(d)]
        A = [[s * x - y for x, y in zip(p, c)] + [-draw(st.sampled_from([1, 1, 1, 2]))] for p in P]
        it = it if d <= 3 or it else '64'
    elif fam == 'cone':         # right hand sides zero
        d = draw(I(1, 4))
        A = [r + [0] for r in draw(pts(d, draw(I(1, 7)), 2))]
        if draw(I(0, 1)):
            A += [r + [-1] for r in draw(pts(d, 1, 1))]
    elif fam == 'big':
        d = draw(I(1, 3))
        A = draw(pts(d + 1, draw(I(2, 8)), draw(st.sampled_from([10, 50]))))
        it = it if (it and it != '64') else 'inf'
    elif fam == 'eq':
        d = draw(I(1, 5))
        A = draw(pts(d + 1, draw(I(1, 8)), draw(I(1, 2))))
        E = draw(pts(d + 1, draw(I(1, 2)), draw(I(1, 2))))
        it = it or '64'
    else:
        d = draw(I(1, 3))
        A = draw(pts(d + 1, draw(I(1, 6)), 1)) + [[0] * d + [draw(I(-1, 0))]]
    return {'d': d, 'I': A, 'E': E, 'i': it, 'fam': fam}


WORDS = [1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200]


@st.composite
def wide(draw, kind):
    """many rows (around every limit of the bitset types), but a small polyhedron: the other
    rows are convex combinations of a few points / constraints, so the reference is computed
    from those ('ref') only"""
    import random
    d = draw(I(2, 3))
    w = draw(st.sampled_from(WORDS[:12] * 3 + WORDS))
    n = draw(st.sampled_from([32 * w, 32 * w + 1, 32 * w - 1, 32 * w + 17]))
    S = 12 if w < 20 else 60
    if kind == 'v':
        base = [[S * x for x in p] for p in draw(st.lists(st.tuples(*[I(0, 2)] * d).map(list), min_size=d + 1, max_size=2 * d + 2, unique_by=tuple))]
    else:
        base = []
        for i in range(d):
            e = [0] * d
            e[i] = 1
            base += [[S * x for x in e] + [-S * draw(I(0, 2))], [-S * x for x in e] + [-S * draw(I(0, 2))]]
        base += [[S * x for x in r[:-1]] + [-S * abs(r[-1])] for r in draw(pts(d + 1, draw(I(0, 3)), 2)) if any(r[:-1])]
    rnd = random.Random(draw(I(0, 10**6)))
    front = draw(st.booleans())
    base = [list(b) for b in sorted({tuple(b) for b in base})]
    rows = {tuple(S * x for x in b) for b in base}
    tries = 0
    while len(rows) < n and tries < 6 * n:
        tries += 1
        k = rnd.choice([2, 2, 3, 4])
        bs = [rnd.choice(base) for _ in range(k)]
        cut = sorted(rnd.randint(0, S) for _ in range(k - 1))
        ws = [b - a for a, b in zip([0] + cut, cut + [S])]
        r = [sum(x * b[i] for x, b in zip(ws, bs)) for i in range(len(base[0]))]
        if kind == 'h':
            r[-1] -= rnd.choice([0, 0, 1, S])
        rows.add(tuple(r))
    rows = list(rows)
    rnd.shuffle(rows)
    if front:
        inb = {tuple(S * x for x in b) for b in base}
        rows = [r for r in rows if r not in inb] + [r for r in rows if r in inb]
    return {'d': d, 'fam': 'wide', 'i': draw(st.sampled_from(['64', '64', 'safe'])), 'words': w, 'ref': [[S * x for x in b] for b in base], **({'V': [list(r) for r in rows], 'R': []} if kind == 'v' else {'I': [list(r) for r in rows], 'E': []})}


# ---------------------------------------------------------------------------
# symmetric polyhedra.  A map is an affine bijection x -> M x + t (integers),
# kept as homogeneous matrix rows [M | t] (d rows of d+1 entries)

def _hmul(A, B):
    """composition A after B of homogeneous affine maps"""
    n = len(A[0]) - 1 if A else 0
    out = []
    for r in A:
        row = [sum(r[k] * B[k][j] for k in range(n)) for j in range(n + 1)]
        row[n] += r[n]
        out.append(row)
    return out


def hom(A):
    """full (d+1)x(d+1) matrix"""
    n = len(A)
    return [list(r) for r in A] + [[0] * n + [1]]


def act_generator(A, g):
    """affine map on a homogeneous generator (v*q, q) / (r, 0)"""
    return tuple(sum(a * x for a, x in zip(r, g)) for r in hom(A))


def act_row(A, c):
    """c o A for a constraint row (c, -b): c.(Ax) - b"""
    H = hom(A)
    n = len(H)
    return tuple(sum(c[i] * H[i][j] for i in range(n)) for j in range(n))


@st.composite
def _symmetry(draw, dmax=4):
    """-> d, list of maps (generating a finite group)"""
    d = draw(I(2, dmax))
    maps = []
    ident = [[int(i == j) for j in range(d)] + [0] for i in range(d)]
    nb = draw(I(1, 2)) if d > 2 else 1
    cut = draw(I(1, d - 1)) if nb == 2 else d
    blocks = [b for b in (list(range(cut)), list(range(cut, d))) if b]
    const = [draw(st.sampled_from([0, 0, 1, 2])) for _ in blocks]
    for _ in range(draw(I(1, 2))):
        A = [r[:] for r in ident]
        for b, k in zip(blocks, const):
            kind = draw(st.sampled_from(['id', 'swap', 'cycle', 'perm', 'flip', 'swapflip']))
            p = list(b)
            fl = []
            if kind in ('swap', 'swapflip') and len(b) >= 2:
                i, j = draw(I(0, len(b) - 2)), len(b) - 1
                p[i], p[j] = p[j], p[i]
            elif kind == 'cycle':
                p = b[1:] + b[:1]
            elif kind == 'perm':
                p = draw(st.permutations(b))
            if kind in ('flip', 'swapflip'):
                fl = [i for i in b if draw(I(0, 1))] or [b[0]]
            for i, j in zip(b, p):
                row = [0] * (d + 1)
                row[j] = 1
                if i in fl:
                    row[j] = -1
                    row[d] = k
                A[i] = row
        if A != ident:
            maps.append(A)
    if not maps:
        A = [r[:] for r in ident]
        A[0], A[1] = A[1], A[0]
        maps.append(A)
    # conjugate with shears: x -> U x + s
    U = [r[:] for r in ident]
    V = [r[:] for r in ident]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        i, j = draw(I(0, d - 1)), draw(I(0, d - 1))
        f = draw(st.sampled_from([1, -1, 2, 3]))
        S = [r[:] for r in ident]
        T = [r[:] for r in ident]
        k = d if i == j else j
        S[i][k] = f
        T[i][k] = -f
        U = _hmul(S, U)
        V = _hmul(V, T)
    maps = [_hmul(U, _hmul(A, V)) for A in maps]
    return d, maps, U


def _orbit(x, maps, act, limit):
    seen = {x}
    todo = [x]
    while todo:
        y = todo.pop()
        for m in maps:
            z = act(m, y)
            if z not in seen:
                if len(seen) >= limit:
                    return None
                seen.add(z)
                todo.append(z)
    return sorted(seen)


@st.composite
def sym_v(draw, limit=20):
    """vertices closed under a group: {'d','maps','orbits':[[..]],'ray_orbits'}"""
    d, maps, U = draw(_symmetry())
    b = draw(st.sampled_from([1, 1, 2, 3]))
    # optionally confine the base points to a hyperplane with a leading coefficient other than one
    orbits, rays = [], []
    total = 0
    for k in range(draw(I(1, 3))):
        p = [draw(I(0 if b == 1 else -b, b)) for _ in range(d)]
        p = act_generator(U, p + [1])
        o = _orbit(p, maps, act_generator, limit)
        if o is None or total + len(o) > limit or any(p in q for q in orbits):
            continue
        orbits.append(o)
        total += len(o)
    if draw(I(0, 3)) == 0:
        r = [draw(I(-1, 1)) for _ in range(d)]
        if any(r):
            r = act_generator(U, r + [0])
            o = _orbit(r, maps, act_generator, 8)
            if o:
                rays.append(o)
    if not orbits:
        return None
    return {'d': d, 'maps': maps, 'orbits': [[list(x[:-1]) for x in o] for o in orbits], 'rays': [[list(x[:-1]) for x in o] for o in rays],
            'i': draw(st.sampled_from([None, '64', 'safe', 'inf'])), 'm': draw(st.sampled_from(['dd', 'ad'])), 't': draw(st.sampled_from([1, 2, 4]))}


@st.composite
def sym_h(draw, limit=16):
    """constraints closed under a group"""
    d, maps, U = draw(_symmetry())
    # the group acts on points by A; c -> c o A.  c0 is chosen in the unconjugated coordinates
    b = draw(st.sampled_from([1, 1, 2]))
    # inverse of U acts on rows
    Ui = _inverse(U)
    orbits, eqs = [], []
    total = 0
    for k in range(draw(I(1, 4))):
        c = [draw(I(-b, b)) for _ in range(d)] + [-draw(I(0, 3))]
        if not any(c[:-1]):
            continue
        c = act_row(Ui, c)
        o = _orbit(c, maps, act_row, limit)
        if o is None or total + len(o) > limit or any(c in q for q in orbits):
            continue
        orbits.append(o)
        total += len(o)
    if draw(I(0, 2)) == 0:
        c = [draw(st.sampled_from([0, 1, 1, 2]))] * d
        cc = c + [-draw(I(0, 3))]
        if any(c):
            o = _orbit(act_row(Ui, cc), maps, act_row, 4)
            if o:
                eqs.append(o)
    if not orbits:
        return None
    return {'d': d, 'maps': maps, 'orbits': [[list(x) for x in o] for o in orbits], 'eqs': [[list(x) for x in o] for o in eqs],
            'i': draw(st.sampled_from([None, '64', 'safe', 'inf'])), 'm': draw(st.sampled_from(['dd', 'ad'])), 't': draw(st.sampled_from([1, 2, 4]))}


def _inverse(U):
    """inverse of a unimodular affine map (by Gauss-Jordan over Q)"""
    n = len(U) + 1
    M = [[F(x) for x in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(hom(U))]
    for c in range(n):
        p = next(i for i in range(c, n) if M[i][c] != 0)
        M[c], M[p] = M[p], M[c]
        v = M[c][c]
        M[c] = [x / v for x in M[c]]
        for i in range(n):
            if i != c and M[i][c]:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return [[int(x) for x in r[n:]] for r in M[:n - 1]]
