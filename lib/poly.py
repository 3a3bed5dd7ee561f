"""Exact reference model for polyhedra (independent of PANDA's code).

Everything works on integer rows (python ints), no floating point.
A cone is {x in Q^n : <a,x> <= 0 for all a in A, <e,x> = 0 for all e in E}.
"""
from fractions import Fraction
from math import gcd
from itertools import combinations


def primitive(row):
    g = 0
    for x in row:
        g = gcd(g, x)
    if g <= 1:
        return tuple(row)
    return tuple(x // g for x in row)


def int_row(fracs):
    """scale a rational row by a positive factor to a primitive integer row"""
    l = 1
    for f in fracs:
        f = Fraction(f)
        l = l * f.denominator // gcd(l, f.denominator)
    return primitive([int(Fraction(f) * l) for f in fracs])


def rref(rows):
    """reduced row echelon form over Q, as primitive integer rows with a
    positive pivot. returns (rows, pivots)"""
    m = [list(map(Fraction, r)) for r in rows]
    if not m:
        return [], []
    n = len(m[0])
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        iv = m[r][c]
        m[r] = [x / iv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    return [int_row(x) for x in m[:r]], piv


def rank(rows):
    # fraction-free elimination
    m = [list(r) for r in rows if any(r)]
    rk = 0
    if not m:
        return 0
    n = len(m[0])
    for c in range(n):
        p = next((i for i in range(rk, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[rk], m[p] = m[p], m[rk]
        pr = m[rk]
        for i in range(rk + 1, len(m)):
            f = m[i][c]
            if f:
                m[i] = list(primitive([pr[c] * x - f * y for x, y in zip(m[i], pr)]))
        rk += 1
        if rk == len(m):
            break
    return rk


def nullspace(rows, n):
    """integer basis of {x: <r,x>=0 for all r}"""
    rr, piv = rref(rows)
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for r, p in zip(rr, piv):
            v[p] = Fraction(-r[f], r[p])
        out.append(int_row(v))
    return out


def reduce_mod(row, rr, piv):
    """canonical primitive representative of row modulo the row space of rr
    (rref rows), up to a positive factor"""
    x = list(row)
    for r, p in zip(rr, piv):
        if x[p]:
            f = x[p]
            x = [r[p] * a - f * b for a, b in zip(x, r)]  # r[p] > 0
    return primitive(x)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def dual(A, n, E=()):
    """generators of {x : <a,x> <= 0, <e,x> = 0}.
    returns (lineality rref rows, pivots, extreme rays reduced mod lineality, as a set)

    textbook double description: the lineality space is carried along, and
    adjacency of two rays is decided by the *rank* test on the tight
    constraints (PANDA uses a combinatorial test)."""
    lin = [tuple(int(i == j) for j in range(n)) for i in range(n)]
    rays = []
    done = []
    for is_eq, a in [(True, e) for e in E] + [(False, a) for a in A]:
        k = next((i for i, l in enumerate(lin) if dot(a, l)), None)
        if k is not None:
            l = lin.pop(k)
            d = dot(a, l)
            if d > 0:
                l = tuple(-x for x in l)
                d = -d
            # l has <a,l> < 0
            proj = lambda y: primitive([(-d) * yi + dot(a, y) * li for yi, li in zip(y, l)])
            lin = [proj(y) for y in lin]
            rays = [proj(y) for y in rays]
            if not is_eq:
                rays.append(primitive(l))
        else:
            vals = [dot(a, r) for r in rays]
            neg = [(r, v) for r, v in zip(rays, vals) if v < 0]
            zero = [r for r, v in zip(rays, vals) if v == 0]
            pos = [(r, v) for r, v in zip(rays, vals) if v > 0]
            new = []
            if pos and neg:
                rk_all = n - len(lin)  # dimension of pointed part's ambient
                tight = {}
                for r, _ in pos + neg:
                    tight[r] = set(i for i, (q, b) in enumerate(done) if q or dot(b, r) == 0)
                for p, vp in pos:
                    for q, vq in neg:
                        common = tight[p] & tight[q]
                        if len(common) < rk_all - 2:
                            continue
                        if rank([done[i][1] for i in common]) == rk_all - 2:
                            new.append(primitive([vp * y - vq * x for x, y in zip(p, q)]))
            rays = zero + new + ([] if is_eq else [r for r, _ in neg])
        done.append((is_eq, tuple(a)))
    rr, piv = rref(lin) if lin else ([], [])
    out = set(reduce_mod(r, rr, piv) for r in rays)
    return rr, piv, out


def brute_dual(A, n, E=()):
    """slow, obviously correct version of dual(): used to validate dual()"""
    lin = nullspace(list(A) + list(E), n)
    rr, piv = rref(lin) if lin else ([], [])
    target = n - len(rr)
    out = set()
    A = [a for a in A]
    need = target - 1 - rank(list(E))
    if target == 0:
        return rr, piv, out
    if need < 0:
        return rr, piv, out
    for sub in combinations(A, need):
        rows = list(sub) + list(E)
        ns = nullspace(rows, n)
        if len(ns) != len(rr) + 1:
            continue
        # pick vector outside lineality
        for v in ns:
            w = reduce_mod(v, rr, piv)
            if any(w):
                break
        else:
            continue
        for s in (1, -1):
            u = tuple(s * x for x in w)
            vals = [dot(a, u) for a in A]
            if all(v <= 0 for v in vals) and all(dot(e, u) == 0 for e in E):
                tight = [a for a, v in zip(A, vals) if v == 0] + list(E)
                if rank(tight) == target - 1:
                    out.add(reduce_mod(u, rr, piv))
    return rr, piv, out


# ---------------------------------------------------------------------------
# polyhedra.  generators: vertices as rational tuples, rays as integer tuples
# inequality row (c_1..c_d, -b)  means  c.x <= b   (PANDA's raw notation)

def homog(vertices, rays):
    out = []
    for v in vertices:
        out.append(int_row(list(v) + [1]))
    for r in rays:
        out.append(primitive(list(r) + [0]))
    return out


def facets(vertices, rays, d):
    """(equation rref rows, pivots, set of facet rows reduced mod equations)
    rows are (c, -b): c.x - b <= 0"""
    gens = homog(vertices, rays)
    rr, piv, ext = dual(gens, d + 1)
    triv = reduce_mod([0] * d + [-1], rr, piv)
    ext.discard(triv)
    return rr, piv, ext


def generators(ineqs, eqs, d):
    """of {x: c.x - b <= 0, eq}: returns (lineality rows, set of homogeneous
    generators (v*q, q) / (r, 0))"""
    triv = tuple([0] * d + [-1])
    rr, piv, ext = dual(list(ineqs) + [triv], d + 1, eqs)
    return rr, piv, ext
