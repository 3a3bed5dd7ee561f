"""Rendering PANDA input, parsing PANDA output, comparing with the reference model."""
import re
from fractions import Fraction as F
from pbt import Viol, Skip
import poly


def frac(x):
    """case data keeps rationals as ints or 'p/q' strings"""
    return F(x)


def vrow(v):
    return ' '.join(str(x) for x in v)


def text_vertices(V, R, d=None, head_v='Vertices:', head_r='Rays:', pre=''):
    t = pre
    if V:
        t += head_v + '\n' + ''.join(vrow(v) + '\n' for v in V)
    if R:
        t += head_r + '\n' + ''.join(vrow(r) + '\n' for r in R)
    return t


def text_ineqs(I, E=(), pre=''):
    """raw rows: coefficients and negated right hand side"""
    t = pre
    if E:
        t += 'Equations:\n' + ''.join(vrow(r) + '\n' for r in E)
    t += 'Inequalities:\n' + ''.join(vrow(r) + '\n' for r in I)
    return t


TERM = re.compile(r'^([+-]?)(\d*)(.*)$')


def parse_named(tokens, names):
    """`x +2y -z <= 3` -> (coefficients, -rhs), relation.  None if malformed"""
    rel = [i for i, t in enumerate(tokens) if t in ('<=', '=', '>=')]
    if len(rel) != 1 or rel[0] != len(tokens) - 2:
        return None
    row = [0] * (len(names) + 1)
    sign = 1
    for t in tokens[:-2]:
        if t in ('+', '-'):
            sign = 1 if t == '+' else -1
            continue
        m = TERM.match(t)
        if not m:
            return None
        s, n, name = m.groups()
        if name == '':
            if n == '0' and len(tokens) == 3:
                continue        # empty left hand side
            return None
        if name not in names:
            return None
        c = int(n) if n else 1
        if s == '-':
            c = -c
        row[names.index(name)] += sign * c
        sign = 1
    try:
        row[-1] = -int(tokens[-1])
    except ValueError:
        return None
    return tuple(row), tokens[-2]


def sections(out, names=None):
    """-> {header: [rows]}.  Header lines end with ':'"""
    sec = None
    res = {}
    for line in out.splitlines():
        l = line.strip()
        if not l:
            continue
        if l.endswith(':') and (not l[0].isdigit()):
            sec = l[:-1]
            if sec in res:
                raise Viol('section %r printed twice' % sec)
            res[sec] = []
            continue
        if sec is None:
            raise Viol('output line outside of any section: %r' % l)
        toks = l.split()
        if names is not None and ('<=' in toks or '=' in toks or '>=' in toks):
            p = parse_named(toks, names)
            if p is None:
                raise Viol('output line cannot be parsed: %r' % l)
            row, rel = p
            if rel != ('=' if sec == 'Equations' else '<='):
                raise Viol('unexpected relation in section %r: %r' % (sec, l))
            res[sec].append(row)
            continue
        try:
            res[sec].append(tuple(F(x) for x in toks))
        except (ValueError, ZeroDivisionError):
            raise Viol('output line cannot be parsed: %r' % l)
    return res


def ints(rows, what):
    out = []
    for r in rows:
        if any(x.denominator != 1 for x in map(F, r)):
            raise Viol('fraction in %s: %r' % (what, r))
        out.append(tuple(int(x) for x in r))
    return out


def need_ok(rc, err):
    if rc != 0:
        raise Viol('exit status %r on valid input (stderr: %s)' % (rc, err.strip()[-200:]))


def fe_output(rc, out, err, d, names=None, reduced=False):
    need_ok(rc, err)
    S = sections(out, names)
    head = 'Reduced Inequalities' if reduced else 'Inequalities'
    if set(S) - {'Equations', head} or head not in S:
        raise Viol('unexpected sections in the output: %s' % sorted(S))
    eqs = ints(S.get('Equations', []), 'equations')
    iq = ints(S[head], 'inequalities')
    for r in eqs + iq:
        if len(r) != d + 1:
            raise Viol('row of wrong length: %r' % (r,))
    return eqs, iq


def cmp_equations(eqs, rr):
    got, _ = poly.rref(eqs) if eqs else ([], [])
    if got != rr:
        raise Viol('equations do not describe the affine hull: printed %r, expected (up to linear combination) %r' % (eqs, rr))
    if len(eqs) != len(rr):
        raise Viol('equations are redundant: printed %r' % (eqs,))


def cmp_facets(eqs, iq, V, R, d, ref=None):
    """full FE output against the model"""
    rr, piv, fs = ref or poly.facets([[F(x) for x in v] for v in V], R, d)
    cmp_equations(eqs, rr)
    red = [poly.reduce_mod(r, rr, piv) for r in iq]
    miss = fs - set(red)
    extra = [r for r, q in zip(iq, red) if q not in fs]
    if extra:
        raise Viol('printed inequality is not facet defining: %r' % (extra[0],))
    if miss:
        raise Viol('facet missing in the output: %r' % (sorted(miss)[0],))
    if len(red) != len(set(red)):
        raise Viol('the same facet is printed twice: %r' % (sorted(red),))


def ve_output(rc, out, err, d, mode, reduced=False):
    """-> list of homogeneous integer rows (v*q, q) / (r, 0)"""
    need_ok(rc, err)
    S = sections(out)
    pre = 'Reduced ' if reduced else ''
    if mode == 'ad':
        head = pre + 'Vertices / Rays'
        if set(S) - {head}:
            raise Viol('unexpected sections in the output: %s' % sorted(S))
        rows = ints(S.get(head, []), 'vertices / rays')
        for r in rows:
            if len(r) != d + 1 or r[-1] < 0:
                raise Viol('not a homogeneous vertex / ray: %r' % (r,))
        return [poly.primitive(r) for r in rows]
    if set(S) - {pre + 'Vertices', pre + 'Rays'}:
        raise Viol('unexpected sections in the output: %s' % sorted(S))
    V = S.get(pre + 'Vertices', [])
    R = ints(S.get(pre + 'Rays', []), 'rays')
    for r in V + R:
        if len(r) != d:
            raise Viol('row of wrong length: %r' % (r,))
    return poly.homog(V, R)


def show_h(row):
    if row[-1] == 0:
        return 'ray ' + vrow(row[:-1])
    return 'vertex ' + vrow([F(x, row[-1]) for x in row[:-1]])


def cmp_generators(rows, I, E, d, ref=None):
    lin, piv, gens = ref or poly.generators(I, E, d)
    if not lin:
        if len(set(rows)) != len(rows):
            raise Viol('the same vertex / ray is printed twice')
        extra = set(rows) - gens
        miss = gens - set(rows)
        if extra:
            raise Viol('printed %s is not extremal' % show_h(sorted(extra)[0]))
        if miss:
            raise Viol('%s missing in the output' % show_h(sorted(miss)[0]))
        return
    # not pointed: there are no vertices in the strict sense.  The printed rows have to
    # generate the polyhedron: minimal faces modulo lineality
    red = [poly.reduce_mod(r, lin, piv) for r in rows]
    nz = [r for r in red if any(r)]
    if set(nz) - gens:
        raise Viol('printed row is not a minimal generator modulo the lineality space: %r' % (sorted(set(nz) - gens)[0],))
    if gens - set(nz):
        raise Viol('generator missing modulo the lineality space: %r' % (sorted(gens - set(nz))[0],))


ORDERS = ['asc', 'desc', 'asc_nonzero']
