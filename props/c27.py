from common import *
import os
"""looking ahead and reading tokens"""
SPACE = ' \t\r'
KW = ['END', 'End', 'Reduced', 'Rays', 'Rays:', 'Vertices:', 'Vertices', 'Reduced Vertices:', 'Reduced Rays', 'Inequalities:', 'Reduced Inequalities:', 'Equations:', 'Maps:', 'Names:', 'NAMES', 'INDEX:', 'Indices', 'DIM=3', 'DIM = 4', 'Dim', 'CONV_SECTION', 'CONE_SECTION:',
      'INEQUALITIES_SECTION', 'MAPS_SECTION:', 'EQUATION_SECTION', 'REDUCED_CONVEX_HULL:']
NOKW = ['Vertices: 1', 'END.', 'vertices', 'Verticess', 'Names :', 'DIMX=3', 'ReducedRays', 'Rays::', '=DIM', 'Inequalities-']
SIMPLE = ['isIdentifier', 'isRelation', 'isEndOfFile', 'isEndOfLine', 'isWhitespace', 'peekLine', 'peekWord', 'skipEndOfLine', 'skipWhitespace', 'identifier', 'relationOperator', 'next', 'get', 'getline', 'containsKeywords']


_S = ['CONE_SECTION', 'CONICAL_HULL', 'CONICAL_HULL_SECTION', 'CONVEX_HULL', 'CONVEX_HULL_SECTION', 'CONV_SECTION', 'INEQUALITIES', 'INEQUALITY_SECTION', 'INEQUALITIES_SECTION']
_T = ['EQUATIONS', 'EQUATION_SECTION', 'EQUATIONS_SECTION', 'Equations', 'MAPS', 'MAP_SECTION', 'MAPS_SECTION', 'Maps', 'INDEX', 'INDICES', 'INDEX_SECTION', 'INDICES_SECTION', 'NAMES', 'NAME_SECTION', 'NAMES_SECTION', 'Indices', 'Names']
_U = _S + ['REDUCED_' + x for x in _S] + [p + x for x in ('Rays', 'Vertices', 'Inequalities') for p in ('', 'Reduced ')] + _T
ALL = set(_U) | {x + ':' for x in _U} | {'END', 'End', 'Reduced'}


@st.composite
def cases(draw):
    piece = st.one_of(st.sampled_from(['\n', '\n', '\r\n', '\r', ' ', ' ', '\t', '  ', '(', ')', '( a )', '(x y)', '(\n', '<', '=', '>', '<=', '>=', '==', '= ', '< ', '>\t', '=\n', '<\r', '0', '17', '-3', '+', 'x', 'ab', 'abc', 'y1', '\xff', '\x00', '\x0b', 'END', '/']),
                      st.sampled_from(['\n%s\n' % k for k in KW] + ['\n \t%s \r\n' % k for k in KW] + [k + '\n' for k in NOKW] + ['\n%s\n' % k for k in sorted(set(_U) - {'DIM'})]), st.text(alphabet='ab1-+<=>() \t\r\n', max_size=6))
    t = ''.join(draw(st.lists(piece, max_size=draw(st.sampled_from([4, 12, 40])))))
    name = st.text(alphabet='abxy1_', min_size=1, max_size=3)
    word = st.text(alphabet='ab 0123\t\r-+.', max_size=7)
    num = st.one_of(I(-2**33, 2**33).map(str), st.sampled_from(['', '+', '-', '2147483647', '2147483648', '-2147483648', '-2147483649', '+7', '--1', '1 ', ' 1', '1x', 'x', '007']))
    op = st.one_of(st.sampled_from(SIMPLE).map(lambda o: [o]), st.sampled_from(SIMPLE).map(lambda o: [o]), st.sampled_from(SIMPLE).map(lambda o: [o]), st.tuples(st.just('seek'), I(0, max(len(t), 0))).map(list),
                   st.tuples(st.just('containsNames'), st.lists(name, min_size=1, max_size=3)).map(list), st.tuples(st.sampled_from(['trim', 'firstWord']), word).map(list), st.tuples(st.just('toInt'), num).map(list), st.tuples(st.just('guarded'), I(0, 3)).map(list))
    return {'t': t, 'f': draw(st.booleans()), 'ops': draw(st.lists(op, min_size=1, max_size=25))}


def is_keyword(w):
    if w in ALL or w.split('=')[0].strip(SPACE) in ('DIM', 'DIMENSION', 'Dim', 'Dimension'):
        return True
    return False


def trim(s):
    return s.strip(SPACE)


def line_at(t, p):
    e = t.find('\n', p)
    return (t[p:], len(t)) if e < 0 else (t[p:e], e + 1)


class Throw(Exception):
    pass


def model(t, p, op):
    """-> (result, new position).  result None: not judged"""
    o = op[0]
    c = t[p] if p < len(t) else ''
    x = lambda s: 'x' + s.encode('latin1').hex()
    b = lambda v: ('1' if v else '0', p)
    if o == 'isIdentifier':
        return b(c == '(')
    if o == 'isRelation':
        return b(c in tuple('<=>') and p + 1 < len(t) and t[p + 1] in '=' + SPACE)
    if o == 'isEndOfFile':
        return b(c == '')
    if o == 'isEndOfLine':
        return b(c in tuple('\r\n'))
    if o == 'isWhitespace':
        return b(c in tuple(SPACE))
    if o == 'skipEndOfLine':
        while p < len(t) and t[p] in '\r\n':
            p += 1
        return '.', p
    if o == 'skipWhitespace':
        while p < len(t) and t[p] in SPACE:
            p += 1
        return '.', p
    if o == 'peekLine':
        return x(line_at(t, p)[0]), p
    if o == 'peekWord':
        q = p
        while q < len(t) and t[q] in ' \t\n\r\x0b\x0c':
            q += 1
        e = q
        while e < len(t) and t[e] not in ' \t\n\r\x0b\x0c':
            e += 1
        if e == q:
            return 'x', None        # no further word: the position is not specified
        return x(t[q:e]), p
    if o == 'get':
        return (str(ord(c)), p + 1) if c else ('-1', p)
    if o == 'getline':
        l, q = line_at(t, p)
        return x(l), q
    if o == 'seek':
        return '.', op[1]
    if o == 'identifier':
        if c != '(':
            raise Throw()
        e = p + 1
        while e < len(t) and t[e] in SPACE:
            e += 1
        s = e
        while e < len(t) and t[e] not in '\r\n)':
            e += 1
        if e == len(t) or t[e] != ')':
            raise Throw()
        return x(trim(t[s:e])), e + 1
    if o == 'relationOperator':
        n = t[p + 1:p + 2]
        if c in tuple('<=>') and n == '=':
            return {'<': 'le', '=': 'eq', '>': 'ge'}[c], p + 2
        if c == '=' and n in tuple(SPACE):
            return 'eq', p + 1
        if c == '=' and n == '':
            return None, None
        raise Throw()
    if o == 'next':
        while True:
            l, q = line_at(t, p)
            if is_keyword(trim(l)):
                return x(trim(l)), p
            if p >= len(t):
                return 'end', None
            p = q
    if o == 'containsKeywords':
        r = False
        q = p
        for _ in range(20):
            if q >= len(t):
                break
            l, q = line_at(t, q)
            r |= is_keyword(trim(l))
        return ('1' if r else '0'), p
    if o == 'guarded':
        r, q = '', p
        for _ in range(op[1]):
            if q >= len(t):
                return None, p      # reading fails
            r, q = line_at(t, q)
        return x(r), p
    if o == 'trim':
        return x(trim(op[1])), p
    if o == 'firstWord':
        w = trim(op[1])
        for s in ' \t':
            w = w.split(s)[0]
        return x(w), p
    if o == 'toInt':
        s = op[1]
        if s in ('', '+', '-'):
            return ('-1' if s == '-' else '1'), p
        import re
        if re.match(r'^[+-]?\d+$', s) and -2**31 <= int(s) < 2**31:
            return str(int(s)), p
        if s[:1] == ' ':
            return None, p
        raise Throw()
    if o == 'containsNames':
        l = line_at(t, p)[0].lstrip(SPACE)
        if l.startswith('('):
            k = l.find(')')
            if k < 0 or '\r' in l[1:k].lstrip(SPACE):
                raise Throw()
            l = l[k + 1:]
        if not any(n in l for n in op[1]):
            return '0', p
        if any(w in op[1] for w in l.split()):
            return ('1' if len(l) < 1000 else None), p
        return None, p              # a name within a word: depends on the other names
    raise AssertionError(o)


class P(Base):
    ID = 'C27'
    COUNT = {'quick': 12000, 'thorough': 300000}
    RULE = ('random texts made of the special characters of the format, keywords and near keywords, arbitrary bytes, from strings and from files; up to 25 operations each: results and positions are compared with a model of the documented '
            'behaviour. Non-trivial: at least three different operations that are judged at positions inside of the text')

    def build(self):
        return {'util': build.harness('util.cpp')}

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        t = c['t']
        raw = t.encode('latin1')
        h = lambda s: 'x' + s.encode('latin1').hex()
        if c['f']:
            head = 'f ' + ctx.write('stream', raw)
        else:
            head = 's ' + h(t)
        def show(o):
            if o[0] == 'containsNames':
                return 'containsNames %d %s' % (len(o[1]), ' '.join(map(h, o[1])))
            if o[0] in ('trim', 'firstWord', 'toInt'):
                return o[0] + ' ' + h(o[1])
            return ' '.join(map(str, o))
        text = head + '\n' + '\n'.join(show(o) for o in c['ops']) + '\n'
        rc, out, err = ctx.exec([ctx.env['util'], 'stream'], stdin=text, note=repr(t) + '\n' + text)
        if rc != 0:
            raise Viol('exit status %r: %s' % (rc, err[-200:]))
        lines = out.split('\n')[:-1]
        if len(lines) != len(c['ops']):
            raise Viol('%d results for %d operations' % (len(lines), len(c['ops'])))
        p = 0
        kinds = set()
        for o, l in zip(c['ops'], lines):
            r, q = l.split()
            if o[0] in ('containsKeywords', 'guarded') and not c['f']:
                continue
            try:
                want, pos = model(t, p, o)
            except Throw:
                want, pos = 'throw', None
            if want is not None and r != want:
                raise Viol('%s at position %d of %r gives %s, expected %s' % (' '.join(map(str, o)), p, t, r, want))
            if pos is not None and int(q) != pos:
                raise Viol('%s at position %d of %r moves to %s, expected %d' % (' '.join(map(str, o)), p, t, q, pos))
            if want is not None and p < len(t):
                kinds.add(o[0])
                ctx.feature(o[0])
            p = int(q) if pos is None else pos
            if p < 0:
                raise Viol('no position after %s' % o[0])
        ctx.nontrivial = len(kinds) >= 3


PROP = P()
