from common import *

BAD_NUMBERS = ['1.5', '0.5', '-.5', 'a', '1a', '1e3', '--1', '+-1', '2147483648', '-2147483649', '99999999999999999999', '0x10', '1,', '1;', '*', '#', '1/0', '1/-', '1/', '1/', '1/ ', '/2', '1//2', 'nan', '-']
BAD_INEQ = ['1.5', 'a', '1a', '--1', '+-1', '2147483648', '-2147483649', '99999999999999999999', '1/2', '*', '#', '-', '1,']


@st.composite
def base(draw):
    d = draw(I(1, 4))
    kind = draw(st.sampled_from(['fe', 've']))
    b = draw(I(1, 3))
    c = {'d': d, 'kind': kind, 'm': draw(st.sampled_from(['dd', 'ad'])), 'i': draw(st.sampled_from([None, 'inf', 'safe'])), 't': draw(st.sampled_from([1, 2]))}
    n = draw(I(2, 5))
    c['rows'] = draw(gen.pts(d if kind == 'fe' else d + 1, n, b))
    c['rows2'] = [r for r in draw(gen.pts(d if kind == 'fe' else d + 1, draw(I(0, 2)), b)) if any(r)]
    c['names'] = draw(st.booleans())
    c['map'] = c['names'] and draw(st.booleans())
    c['style'] = draw(st.sampled_from(['raw', 'named', 'rel'])) if kind == 've' else 'raw'
    if c['style'] == 'named' and not c['names']:
        c['style'] = 'rel'
    c['mut'] = draw(st.sampled_from(FE_MUT if kind == 'fe' else VE_MUT))
    c['at'] = draw(I(0, 7))
    c['pos'] = draw(I(0, 7))
    c['arg'] = draw(I(0, 63))
    c['tail'] = draw(st.booleans())
    return c


COMMON = ['short_row', 'long_row', 'bad_token', 'bad_token', 'dim', 'dim_text', 'names_few', 'names_many', 'map_few', 'map_many', 'map_unknown', 'map_sign', 'unclosed_id', 'no_rows', 'no_keyword', 'empty', 'both', 'reduced_no_maps',
          'no_file', 'map_dim', 'bad_token2', 'row2_length', 'map_dup_sign']
FE_MUT = COMMON + ['zero_den', 'big_den']
VE_MUT = COMMON + ['two_rel', 'wrong_rel', 'lt', 'no_rhs', 'two_rhs', 'var_rhs', 'unknown_var', 'dup_var', 'const_lhs', 'dangling', 'dangling', 'name_undeclared', 'glued']


def named(row, names, rel='<='):
    t = []
    for c, n in zip(row, names):
        if c:
            t.append(('%+d' % c) + n)
    return (t or ['0' + names[0]]) + [rel, str(-row[-1])]


def build(c):
    """-> (text or None, known mutation applied?)"""
    d, mut, k, p, a = c['d'], c['mut'], c['at'], c['pos'], c['arg']
    names = ['x%d' % (i + 1) for i in range(d)]
    fe = c['kind'] == 'fe'
    use_names = c['names'] or mut in ('names_few', 'names_many') or mut.startswith('map')
    style = c['style']
    if mut in ('var_rhs', 'unknown_var', 'dup_var', 'const_lhs', 'dangling', 'glued'):
        style, use_names = 'named', True
    if mut in ('two_rel', 'wrong_rel', 'lt', 'no_rhs', 'two_rhs') and style == 'raw':
        style = 'rel'

    def fmt(row, rel='<='):
        if fe or style == 'raw':
            return [str(x) for x in row]
        if style == 'rel':
            return [str(x) for x in row[:-1]] + [rel, str(-row[-1])]
        return named(row, names, rel)
    rows = [fmt(r) for r in c['rows']]
    rows2 = [fmt(r, '=') for r in c['rows2']]
    if mut == 'row2_length' and not rows2:
        rows2 = [fmt([1] * (d if fe else d + 1), '=')]
    r = rows[k % len(rows)]
    lines = []
    nm = list(names)
    maps = [list(names)] if (c['map'] or mut.startswith('map')) else []
    kw1, kw2 = ('Vertices:', 'Rays:') if fe else ('Inequalities:', 'Equations:')
    dim = None
    if mut == 'short_row':
        if len(r) < 2 and fe:
            raise Skip()
        if not fe and style == 'named':
            raise Skip()
        del r[p % len(r) if (fe or style == 'raw') else 0]
        if not r:
            raise Skip()
        if not fe and style == 'rel' and d == 1:
            pass        # `<= 3`: a row without coefficients
    elif mut == 'long_row':
        if style == 'named' and not fe:
            raise Skip()
        r.insert(0, '1')
    elif mut in ('bad_token', 'bad_token2'):
        rr = r if mut == 'bad_token' or not rows2 else rows2[k % len(rows2)]
        bad = (BAD_NUMBERS if fe else BAD_INEQ)
        b = bad[a % len(bad)]
        if not fe and style == 'named':
            b = ['*', '#', '1.5', '2147483648' + names[0], '-2147483649' + names[0], '--' + names[0], '+-' + names[0], names[0] + names[0], '99999999999999999999'][a % 9]
            rr.insert(0, b)
        elif not fe and style == 'rel':
            i = p % (len(rr) - 2) if b == '-' or p % 2 else len(rr) - 1
            rr[i] = b
        else:
            rr[p % len(rr)] = b
    elif mut == 'dim':
        dim = 'DIM=%d' % (d + 1 + a % 3 if a % 2 or d == 1 else d - 1)
    elif mut == 'dim_text':
        dim = ['DIM=x', 'DIM=', 'DIM = ?'][a % 3]
    elif mut == 'names_few':
        if d == 1 or style == 'named':
            raise Skip()
        nm = nm[:-1]
        maps = []
    elif mut == 'names_many':
        if style == 'named':
            raise Skip()
        nm = nm + ['extra']
        maps = []
    elif mut == 'map_few':
        if d == 1:
            raise Skip()
        maps = [names, names[:-1]] if a % 2 else [names[:-1]]
    elif mut == 'map_many':
        maps = [names + [names[0]]]
    elif mut == 'map_unknown':
        m = list(names)
        m[p % d] = ['y', 'x', '2y', 'x1x1', '*', 'x1+y', '1.5'][a % 7]
        maps = [m]
    elif mut == 'map_sign':
        m = list(names)
        m[p % d] = ['x1+', 'x1-', '+', '-', 'x1+-1', 'x1--1', 'x1+-x1', '--x1', 'x1-+1'][a % 9]
        maps = [m]
    elif mut == 'map_dup_sign':
        m = list(names)
        m[p % d] = ['99999999999x1', 'x1+99999999999', '2147483648x1'][a % 3]
        maps = [m]
    elif mut == 'map_dim':
        # the dimension of names / maps does not match the rows
        if not fe and style == 'named':
            raise Skip()
        nm = nm + ['extra']
        maps = [nm]
    elif mut == 'unclosed_id':
        r.insert(0, ['(1', '(', '(a b'][a % 3])
    elif mut == 'no_rows':
        rows, rows2 = [], []
    elif mut == 'no_keyword':
        return ''.join(' '.join(x) + '\n' for x in rows)
    elif mut == 'empty':
        return ['', '\n', ' \n\n', 'Names:\n' + ' '.join(names) + '\n', 'DIM=2\n'][a % 5]
    elif mut == 'both':
        t = 'Vertices:\n' + ''.join('0 ' * d + '\n' for _ in range(2)) + 'Inequalities:\n' + '0 ' * d + '0\n'
        return t
    elif mut == 'reduced_no_maps':
        kw1 = 'Reduced ' + kw1
        maps = []
    elif mut == 'no_file':
        return None
    elif mut == 'row2_length':
        r2 = rows2[k % len(rows2)]
        if style == 'named' and not fe:
            raise Skip()
        if a % 2 and len(r2) > 1 and (fe or style == 'raw'):
            del r2[0]
        else:
            r2.insert(0, '1')
    elif mut == 'zero_den':
        r[p % len(r)] += '/0'
    elif mut == 'big_den':
        r[p % len(r)] = ['1/2147483648', '1/99999999999'][a % 2]
    elif mut == 'two_rel':
        r.insert(len(r) - 1, '<=')
    elif mut == 'wrong_rel':
        if a % 2 and rows2:
            rows2[k % len(rows2)][-2] = ['<=', '>='][a % 4 // 2]
        else:
            r[-2] = ['=', '=='][a % 4 // 2]
    elif mut == 'lt':
        r[-2] = ['<', '>', '=<', '=>', '!='][a % 5]
    elif mut == 'no_rhs':
        del r[-1]
    elif mut == 'two_rhs':
        r.append('1')
    elif mut == 'var_rhs':
        r[-1] = [names[0], '2' + names[0]][a % 2] if a % 4 < 2 else r[-1]
        if a % 4 >= 2:
            r.append('+' + names[0])
    elif mut == 'unknown_var':
        r.insert(p % (len(r) - 1), ['+y', '-2z', '+x', 'x0'][a % 4])
    elif mut == 'dup_var':
        r[:-2] = ['2' + names[0], ['+', '-'][a % 2] + names[0]]
    elif mut == 'const_lhs':
        r.insert(0, ['1', '-2', '+3'][a % 3])
    elif mut == 'dangling':
        r[:-2] = [[names[0], '+'], [names[0], '-'], ['-'], ['+', '-' + names[0]], ['-', '-2' + names[0]], ['+', '+', names[0]]][a % 6]
        if a % 12 >= 6:
            del r[-2:]      # ... at the end of the line
    elif mut == 'glued':
        if d == 1:
            r[:-2] = [names[0] + '<=']
            del r[-2]
        else:
            r[:-2] = [names[0] + ['+', '-', '+2', '-2'][a % 4] + names[1]]
    elif mut == 'name_undeclared':
        use_names = False
        maps = []
        r[:] = named(c['rows'][k % len(rows)], names)
        if style == 'named':
            style = 'raw'
            rows = [r]
            rows2 = []
    t = ''
    if dim and a % 2:
        t += dim + '\n'
    if use_names:
        t += 'Names:\n' + ' '.join(nm) + '\n'
    if maps:
        t += 'Maps:\n' + ''.join(' '.join(m) + '\n' for m in maps)
    s1 = kw1 + '\n' + ''.join(' '.join(x) + '\n' for x in rows)
    s2 = kw2 + '\n' + ''.join(' '.join(x) + '\n' for x in rows2) if rows2 else ''
    t += s1 + s2 if c['tail'] else s2 + s1
    if dim and not a % 2:
        t += dim + '\n'
    return t


class P(Base):
    ID = 'C11'
    COUNT = {'quick': 30000, 'thorough': 400000}
    RULE = ('a well-formed small input with exactly one of %d kinds of errors (wrong row length, tokens that are not numbers, numbers that are too large, zero denominators, contradicting DIM / Names / Maps, wrong, '
            'missing or repeated relation operators, unknown / repeated / misplaced terms, dangling signs, unclosed identifiers, missing sections or files) has to be rejected: non-zero exit status, a message on '
            'stderr and nothing on stdout. Non-trivial: every case with an error applied' % len(set(FE_MUT + VE_MUT)))

    def strategy(self, env):
        return base()

    def judge(self, c, ctx):
        text = build(c)
        if text is None:
            rc, out, err = ctx.exec([ctx.env['panda'], *opts_of(c, c['m']), '/nonexistent/input'])
        else:
            rc, out, err = ctx.panda(text, *opts_of(c, c['m']))
        ctx.nontrivial = True
        ctx.feature('%s %s' % (c['kind'], c['mut']))
        if rc == 0:
            raise Viol('malformed input (%s) is accepted' % c['mut'])
        if rc < 0 and rc != -6:
            raise Viol('malformed input (%s) makes panda die from signal %d' % (c['mut'], -rc))
        if out.strip():
            raise Viol('malformed input (%s): results are printed' % c['mut'])
        if not err.strip():
            raise Viol('malformed input (%s): rejected without any message' % c['mut'])


PROP = P()
