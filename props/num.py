from common import *
from math import gcd
"""programs over integer registers; the model is Python's int"""
NREG = 6
TYPES = {'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1)}
IMIN, IMAX = -2**31, 2**31 - 1
MODS = [10007, 99991, 65536, 2147483629, 2147483647]
# temporary registers used to build the expected values
E_, C_, D_ = 20, 21, 22


def near(draw, bits):
    """an integer concentrated at interesting places"""
    k = draw(I(0, 5))
    if k == 0:
        return draw(I(-9, 9))
    e = draw(st.sampled_from([b for b in (7, 8, 15, 16, 31, 32, 33, 46, 47, 62, 63, 64, 65, 95, 96, 127, 128, 129, 192, 256) if b <= bits]))
    if k <= 3:
        v = (1 << e) + draw(I(-3, 3))
    else:
        v = draw(I(0, (1 << e)))
    return -v if draw(st.booleans()) else v


@st.composite
def programs(draw, safe):
    ops = []
    for _ in range(draw(I(2, 4))):
        ops.append(['c', draw(I(0, NREG - 1)), near(draw, 63 if safe else 256)])
    for _ in range(draw(I(3, 24))):
        k = draw(st.sampled_from('oooooosssssscnbaglt'))
        r, a, b = draw(I(0, NREG - 1)), draw(I(0, NREG - 1)), draw(I(0, NREG - 1))
        if k == 'o':
            ops.append([k, r, draw(st.sampled_from('+-*/%')), a, b])
        elif k == 's':
            ops.append([k, r, draw(st.sampled_from('+-*/%')), a])
        elif k == 'c':
            ops.append([k, r, near(draw, 63 if safe else 256)])
        elif k == 't':      # builtin type: close to its limits
            t = draw(st.sampled_from(sorted(TYPES)))
            lo, hi = TYPES[t]
            v = draw(st.one_of(I(lo, hi), I(lo, lo + 3), I(hi - 3, hi), I(max(lo, -3), 3)))
            ops.append([k, r, t, v])
        elif k in 'gl':
            ops.append([k, r, a, b])
        else:
            ops.append([k, r, a])
    return {'ops': ops}


class Num(Base):
    def build(self):
        return {'num': build.harness('num.cpp', flags=('-O1', '-fsanitize=undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS') if False else ('-O1', '-D_GLIBCXX_ASSERTIONS'))}

    def strategy(self, env):
        return programs(self.KIND == 'safe')

    def set_value(self, lines, reg, v):
        """build the value v in a register from 64 bit constants"""
        if -2**63 <= v < 2**63:
            lines.append(('c %d i64 %d' % (reg, v), 'ok'))
            return
        a = abs(v)
        digits = []
        while a:
            digits.append(a & (2**48 - 1))
            a >>= 48
        lines.append(('c %d i64 0' % reg, 'ok'))
        lines.append(('c %d i64 %d' % (C_, 2**48), 'ok'))
        for x in reversed(digits):
            lines.append(('s %d * %d' % (reg, C_), 'ok'))
            lines.append(('c %d i64 %d' % (D_, x), 'ok'))
            lines.append(('s %d + %d' % (reg, D_), 'ok'))
        if v < 0:
            lines.append(('n %d %d' % (reg, reg), 'ok'))

    def judge(self, c, ctx):
        safe = self.KIND == 'safe'
        fits = (lambda v: -2**63 <= v < 2**63) if safe else (lambda v: abs(v) < 1 << 1000)
        R = [0] * NREG
        lines = []
        big = False
        done = []

        def quot(a, b):
            x = abs(a) // abs(b)
            return x if (a < 0) == (b < 0) else -x
        for op in c['ops']:
            k, r = op[0], op[1]
            n0 = len(lines)
            if k == 'c':
                v = op[2]
                if not fits(v):
                    v = R[r]
                    self.set_value(lines, r, v)
                self.set_value(lines, r, v)
            elif k == 't':
                t, v = op[2], op[3]
                if fits(v):
                    lines.append(('c %d %s %d' % (r, t, v), 'ok'))
                else:
                    lines.append(('c %d %s %d' % (r, t, v), 'throw'))
                    v = R[r]
            else:
                if k == 'o':
                    a, b = R[op[3]], R[op[4]]
                    o = op[2]
                    cmd = 'o %d %s %d %d' % (r, o, op[3], op[4])
                elif k == 's':
                    a, b = R[r], R[op[3]]
                    o = op[2]
                    cmd = 's %d %s %d' % (r, o, op[3])
                elif k in 'gl':
                    a, b = R[op[2]], R[op[3]]
                    o = k
                    if safe and (a == -2**63 or b == -2**63):
                        continue
                    if k == 'l' and (a == 0 or b == 0 or not fits(a * b)):
                        continue
                    cmd = '%s %d %d %d' % (k, r, op[2], op[3])
                else:
                    a, b, o = R[op[2]], 0, k
                    cmd = '%s %d %d' % (k, r, op[2])
                bad = False
                if o == '+':
                    v = a + b
                elif o == '-':
                    v = a - b
                elif o == '*':
                    v = a * b
                elif o == '/':
                    bad = b == 0
                    v = 0 if bad else quot(a, b)
                elif o == '%':
                    bad = b <= 0
                    v = 0 if bad else a % b
                elif o == 'g':
                    v = gcd(a, b)
                elif o == 'l':
                    v = abs(a * b) // gcd(a, b)
                elif o == 'n':
                    v = -a
                elif o == 'b':
                    v = abs(a)
                else:
                    v = a
                if not bad and not fits(v) and not safe:
                    continue                        # keep the numbers below 1000 bits
                if not bad and fits(v):
                    lines.append((cmd, 'ok'))
                else:
                    lines.append((cmd, 'throw'))
                    ctx.feature('throws')
                    big |= safe
                    v = R[r]
                ctx.feature('op ' + o)
            R[r] = v
            big |= abs(v) >= (2**31 if safe else 2**64)
            # compare
            self.set_value(lines, E_, v)
            lines.append(('k %d %d' % (r, E_), '100011'))
            lines.append(('k %d %d' % (E_, r), '100011'))
            if IMIN <= v <= IMAX:
                lines.append(('v %d' % r, str(v)))
            else:
                lines.append(('v %d' % r, 'throw'))
            for d in (1, -1):
                w = v + d
                if fits(w):
                    self.set_value(lines, E_, w)
                    lines.append(('k %d %d' % (r, E_), '011010' if v < w else '010101'))
            for w in {min(max(v, IMIN), IMAX), min(max(v + 1, IMIN), IMAX), min(max(v - 1, IMIN), IMAX), 0, IMIN, IMAX}:
                lines.append(('i %d %d' % (r, w), '100011' if v == w else '011010' if v < w else '010101'))
            if -v != v and fits(-v):
                self.set_value(lines, E_, -v)
                lines.append(('k %d %d' % (r, E_), '011010' if v < -v else '010101'))
            for i, x in enumerate(R):
                if i != r:
                    lines.append(('k %d %d' % (r, i), '100011' if v == x else '011010' if v < x else '010101'))
            m = MODS[len(lines) % len(MODS)]
            lines.append(('c %d i64 %d' % (E_, m), 'ok'))
            lines.append(('o %d %% %d %d' % (E_, r, E_), 'ok'))
            lines.append(('v %d' % E_, str(v % m)))
            done.append((len(lines), op, v))
        ctx.nontrivial = big
        text = '\n'.join(l for l, _ in lines) + '\n'
        rc, out, err = ctx.exec([ctx.env['num'], self.KIND], stdin=text, note='%d commands (see ops of the case)' % len(lines))
        got = out.splitlines()
        for i, (l, want) in enumerate(lines):
            g = got[i] if i < len(got) else None
            if g != want:
                op = next((d for d in done if i < d[0]), None)
                raise Viol('after operation %r (exact value %r): command %r gives %r, expected %r%s' % (op and op[1], op and op[2], l, g, want, '' if rc == 0 else ' (exit status %r)' % rc))
        if rc != 0:
            raise Viol('exit status %r' % rc)
