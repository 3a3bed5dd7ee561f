from common import *
import algo, re
"""printing of rows and conversion between integer types: what is printed denotes the row, or an exception"""

LO, HI = -(1 << 31), (1 << 31) - 1
REL = ['<=', '=', '>=', '==', '<']


def entry(t, big):
    m = algo.LIMIT['16'] - 1 if t == '16' else HI
    small = st.sampled_from([0, 0, 0, 1, -1, 1, -1, 2, -2, 3, 7, 10, -10, 99, 100, -1000])
    edge = st.sampled_from([m, -m, m - 1, -m - 1, m // 2, 12345])
    far = st.one_of(st.sampled_from([HI + 1, LO - 1, 2 * HI, 1 << 32, (1 << 32) + 1, -(1 << 32), (1 << 33) - 1, 1 << 40, (1 << 63) - 1, -(1 << 63) + 1, (1 << 62), -(1 << 31) * 3]), I(-(1 << 63) + 1, (1 << 63) - 1))
    return st.one_of(*([small] * 1 + [edge, I(-50, 50)] + ([far] if big else [])))


NAME = st.text('abcxyzXY_[]^.,;#', min_size=1, max_size=4).filter(lambda s: s[0] in 'abcxyzXY').flatmap(lambda s: st.sampled_from([s, s, s + '1', s + '12', s + '_2', s + '[3]']))


@st.composite
def cases(draw):
    t = draw(st.sampled_from(algo.TYPES))
    what = draw(st.sampled_from(['print', 'print', 'pretty', 'pretty', 'pretty', 'prettym', 'printm', 'frac', 'frac', 'castto', 'casttom', 'castfrom']))
    n = draw(I(1, 6))
    big = t in ('64', 'safe', 'inf') and draw(I(0, 3)) == 0
    k = draw(I(1, 4)) if what in ('prettym', 'casttom', 'printm') else 1
    rows = [draw(st.lists(entry(t, big), min_size=n + 1, max_size=n + 1)) for _ in range(k)]
    c = {'t': t, 'what': what, 'rows': rows}
    if what in ('pretty', 'prettym'):
        c['names'] = draw(st.one_of(st.lists(NAME, min_size=n, max_size=n, unique=True), st.just([]))) if draw(I(0, 3)) == 0 else draw(st.lists(NAME, min_size=n, max_size=n, unique=True))
        c['rel'] = draw(st.sampled_from(REL))
    if what == 'frac':
        if draw(I(0, 1)):
            g = draw(st.sampled_from([1, 2, 3, 4, 6, 12]))
            rows[0] = [g * draw(I(-30, 30)) for _ in range(n)] + [g * draw(st.sampled_from([1, -1, 2, 3, -4, 6, 12]))]
        rows[0] = [x + (x == LO) + (t == '16' and x == -(1 << 15)) for x in rows[0]]
        if rows[0][-1] == 0:
            rows[0][-1] = 1
    return c


def plain(line, r):
    if '\n' in line or line.split() != [str(x) for x in r]:
        raise Viol('%r is printed as %r' % (r, line))


def named(line, r, names, rel):
    """independent reading of a printed constraint"""
    m = re.match(r'^(.*) (%s) (-?\d+)$' % re.escape(rel), line)
    if not m:
        raise Viol('%r is printed as %r' % (r, line))
    coef = [0] * len(names)
    lhs = m.group(1)
    # tokens: sign, number, name (longest first); blanks only between terms
    pos = 0
    first = True
    order = sorted(range(len(names)), key=lambda i: -len(names[i]))
    while True:
        while pos < len(lhs) and lhs[pos] == ' ':
            pos += 1
        if pos == len(lhs):
            break
        q = re.compile(r'([+-]?)(\d*)').match(lhs, pos)
        if not first and not q.group(1):
            raise Viol('%r is printed as %r (no sign between two terms)' % (r, line))
        f = int(q.group(2) or 1) * (-1 if q.group(1) == '-' else 1)
        pos = q.end()
        end = lhs.find(' ', pos)
        w = lhs[pos:] if end < 0 else lhs[pos:end]
        if w not in names:
            raise Viol('%r is printed as %r (%r is no name)' % (r, line, w))
        i = names.index(w)
        if coef[i]:
            raise Viol('%r is printed as %r (%s occurs twice)' % (r, line, w))
        coef[i] = f
        pos += len(w)
        first = False
    if coef != list(r[:-1]) or int(m.group(3)) != -r[-1]:
        raise Viol('%r is printed as %r' % (r, line))


class P(algo.Alg):
    ID = 'C23'
    COUNT = {'quick': 12000, 'thorough': 400000}
    RULE = ('random rows and matrices of all integer types (zeros, ones, limits of int, numbers beyond int), printed plainly, with random names and relations, and as fractions, and converted between the types; the text is read by an '
            'independent parser and has to denote exactly the row; a number that does not fit has to cause an exception. Non-trivial: at least two non-zero entries')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        t, what, rows = c['t'], c['what'], c['rows']
        r = rows[0]
        fits = all(LO <= x <= HI for y in rows for x in y)
        ctx.nontrivial = sum(1 for x in r if x) >= 2
        ctx.feature(what, t, None if fits else 'beyond int')
        if t == '64':
            pass
        ww = ' '.join(algo.row(x) for x in rows)
        if what in ('castto', 'casttom', 'castfrom'):
            if t == '32':
                return
            if what == 'castfrom':
                if not fits:
                    return
                w = self.raw(ctx, t, 'castfrom ' + algo.row(r))
                lim = algo.LIMIT['16']
                ok = t != '16' or all(-lim <= x < lim for x in r)
                if w != ('r ' + ' '.join(map(str, r)) if ok else 'x'):
                    raise Viol('cast of %r from int to %s: %s' % (r, t, w))
                return
            if what == 'castto':
                w = self.raw(ctx, t, 'castto ' + ww)
                want = 'r ' + ' '.join(map(str, r)) if fits else 'x'
            else:
                w = self.raw(ctx, t, 'casttom %d %s' % (len(rows), ww))
                want = 'm %d\n' % len(rows) + '\n'.join('r ' + ' '.join(map(str, x)) for x in rows) if fits else 'x'
            if w != want:
                raise Viol('cast of %r from %s to int: %s' % (rows, t, w))
            return
        if what == 'printm':
            if not fits:
                return
            w = self.raw(ctx, t, 'printm ' + algo.matrix(rows))
        elif what == 'print':
            w = self.raw(ctx, t, 'printw ' + ww)
        elif what == 'frac':
            w = self.raw(ctx, t, 'fracw ' + ww)
        else:
            tail = ' %d %s %s' % (len(c['names']), ' '.join(c['names']), c['rel'])
            w = self.raw(ctx, t, ('prettyw ' + ww if what == 'pretty' else 'prettymw %d %s' % (len(rows), ww)) + tail)
        if not fits:
            # (a right hand side is negated before it is printed: nothing beyond int is ever printed)
            if w != 'x':
                raise Viol('%s of %r (%s), which does not fit into int: %r' % (what, rows, t, w))
            return
        if w == 'x' or not w.startswith('t '):
            raise Viol('%s of %r (%s): %r' % (what, rows, t, w))
        body = w[w.index('\n') + 1:]
        if what == 'print':
            plain(body, r)
        elif what == 'printm':
            ls = body.rstrip('\n').split('\n')
            if len(ls) != len(rows):
                raise Viol('matrix %r is printed as %r' % (rows, body))
            for x, y in zip(ls, rows):
                plain(x, y)
        elif what == 'frac':
            if '\n' in body:
                raise Viol('%r is printed as %r' % (r, body))
            want = [F(x, r[-1]) for x in r[:-1]]
            if body.split() != [str(x) for x in want]:
                raise Viol('%r is printed as %r' % (r, body))
        else:
            if not body.endswith('\n'):
                raise Viol('no newline at the end of %r' % body)
            ls = body[:-1].split('\n')
            want = [r, r] if what == 'pretty' else rows
            if len(ls) != len(want):
                raise Viol('%r are printed as %r' % (want, body))
            for x, y in zip(ls, want):
                if c['names']:
                    named(x, y, c['names'], c['rel'])
                else:
                    plain(x, y)

    def raw(self, ctx, t, cmd):
        rc, out, err = ctx.exec([ctx.env['alg'], t], stdin=cmd + '\n', note=cmd)
        if rc != 0 or not out.endswith('end\n'):
            raise Viol('%s: %s (exit status %r)' % (cmd.split()[0], out[-200:] + err[-200:], rc))
        return out[:-4].rstrip('\n') if not cmd.startswith(('pretty', 'frac', 'print')) or out.startswith('x') else out[:-5]


PROP = P()
