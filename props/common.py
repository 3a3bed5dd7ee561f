import build
from pbt import Viol, Skip
import poly, ppl, gen
from hypothesis import strategies as st
from fractions import Fraction as F
I = st.integers


class Base:
    COUNT = {'quick': 20000, 'thorough': 400000}

    def build(self):
        return {'panda': build.panda()}


@st.composite
def mostly(draw, a, b, n=60):
    """b in one of n cases, else a"""
    return draw(b if draw(I(0, n - 1)) == n // 2 else a)


def vpoly():
    return mostly(gen.v_polyhedron(), gen.high('v'), 6)


def hpoly():
    return mostly(gen.h_polyhedron(), gen.high('h'), 6)


def opts_of(case, mode):
    o = ['-m', mode]
    if case.get('i'):
        o += ['-i', case['i']]
    if case.get('t'):
        o += ['-t', str(case['t'])]
    if case.get('s'):
        o += ['-s', case['s']]
    return o


def q(V):
    return [[F(x) for x in v] for v in V]


def fe_text(case, pre=''):
    return ppl.text_vertices(case['V'], case['R'], pre=pre)


def ve_text(case, pre=''):
    return ppl.text_ineqs(case['I'], case['E'], pre=pre)
