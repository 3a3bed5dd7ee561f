"""Renders a problem in the many equivalent spellings that PANDA's input format allows.

doc = list of sections (kind, rows).  Kinds: names, maps, dim, V, R, RV, RR (reduced), I, E, RI.
noise: {'seed': int, 'on': [flags]} -- every flag switches on one kind of freedom."""
import random

KEY = {
    'names': ['Names:', 'Names', 'INDEX', 'INDEX:', 'INDICES', 'INDICES:', 'INDEX_SECTION', 'INDEX_SECTION:', 'INDICES_SECTION', 'NAMES', 'NAMES:', 'NAME_SECTION', 'NAMES_SECTION', 'NAMES_SECTION:', 'Indices', 'Indices:'],
    'maps': ['Maps:', 'Maps', 'MAPS', 'MAPS:', 'MAP_SECTION', 'MAP_SECTION:', 'MAPS_SECTION', 'MAPS_SECTION:'],
    'V': ['Vertices:', 'Vertices', 'CONV_SECTION', 'CONV_SECTION:', 'CONVEX_HULL', 'CONVEX_HULL:', 'CONVEX_HULL_SECTION', 'CONVEX_HULL_SECTION:'],
    'R': ['Rays:', 'Rays', 'CONE_SECTION', 'CONE_SECTION:', 'CONICAL_HULL', 'CONICAL_HULL:', 'CONICAL_HULL_SECTION', 'CONICAL_HULL_SECTION:'],
    'RV': ['Reduced Vertices:', 'Reduced Vertices', 'REDUCED_CONV_SECTION', 'REDUCED_CONV_SECTION:', 'REDUCED_CONVEX_HULL', 'REDUCED_CONVEX_HULL:', 'REDUCED_CONVEX_HULL_SECTION', 'REDUCED_CONVEX_HULL_SECTION:'],
    'RR': ['Reduced Rays:', 'Reduced Rays', 'REDUCED_CONE_SECTION', 'REDUCED_CONE_SECTION:', 'REDUCED_CONICAL_HULL', 'REDUCED_CONICAL_HULL:', 'REDUCED_CONICAL_HULL_SECTION', 'REDUCED_CONICAL_HULL_SECTION:'],
    'E': ['Equations:', 'Equations', 'EQUATIONS', 'EQUATIONS:', 'EQUATION_SECTION', 'EQUATION_SECTION:', 'EQUATIONS_SECTION', 'EQUATIONS_SECTION:'],
    'I': ['Inequalities:', 'Inequalities', 'INEQUALITIES', 'INEQUALITIES:', 'INEQUALITY_SECTION', 'INEQUALITY_SECTION:', 'INEQUALITIES_SECTION', 'INEQUALITIES_SECTION:'],
    'RI': ['Reduced Inequalities:', 'Reduced Inequalities', 'REDUCED_INEQUALITIES', 'REDUCED_INEQUALITIES:', 'REDUCED_INEQUALITY_SECTION', 'REDUCED_INEQUALITY_SECTION:', 'REDUCED_INEQUALITIES_SECTION', 'REDUCED_INEQUALITIES_SECTION:'],
}
DIM = ['DIM=%d', 'DIM = %d', 'DIMENSION=%d', 'DIMENSION = %d', 'Dim=%d', 'Dim = %d', 'Dimension=%d', 'DIM= %d', 'DIM =%d']

FLAGS = ['keywords', 'crlf', 'blank', 'spaces', 'tabs', 'ids', 'fractions', 'dim', 'end', 'nonl', 'named', 'unnamed_rel', 'ge', 'eqeq', 'ones', 'zeros', 'split_sign', 'order', 'sections',
         'plus', 'map_terms', 'many_lines_names']

NAME_SETS = [
    lambda d: ['x%d' % (i + 1) for i in range(d)],
    lambda d: list('abcdefgh')[:d],
    lambda d: ['x' * (i + 1) for i in range(d)],
    lambda d: ['x' * (d - i) for i in range(d)],
    lambda d: ['v[%d]' % (i * 5) for i in range(d)],
    lambda d: ['y_%d,%d' % (i // 2, i % 2) for i in range(d)],
    lambda d: ['E', 'N', 'D', 'END1', 'Rays1', 'Maps2', 'e', 'n'][:d],
    lambda d: ['x(%d)' % i for i in range(d)],
    lambda d: ['ab', 'b', 'abc', 'c', 'bc', 'a', 'ca', 'cab'][:d],
    lambda d: ['x1', 'x10', 'x11', 'x100', 'x', 'x2', 'x20', 'x21'][:d],
]


def names_for(style, d):
    return NAME_SETS[style % len(NAME_SETS)](d)


class Renderer:
    def __init__(self, noise, names, d):
        self.on = set(noise['on'])
        self.r = random.Random(noise['seed'])
        self.names = names
        self.d = d

    def has(self, f, p=.6):
        return f in self.on and self.r.random() < p

    def gap(self):
        s = ' '
        if self.has('spaces', .4):
            s = ' ' * self.r.randint(2, 4)
        if self.has('tabs', .4):
            s = self.r.choice(['\t', ' \t', '\t\t'])
        return s

    def line(self, toks, ident=False):
        s = ''
        if 'spaces' in self.on and self.r.random() < .4:
            s += ' ' * self.r.randint(1, 3)
        if self.has('tabs', .2):
            s += '\t'
        if ident and self.has('ids', .6):
            s += self.r.choice(['(%d)' % self.r.randint(1, 99), '( %d)' % self.r.randint(1, 9), '(row %d)' % self.r.randint(1, 9), '(a-1<=2 x)']) + self.gap()
        s += ''.join((self.gap() if i else '') + t for i, t in enumerate(toks))
        if self.has('spaces', .3):
            s += ' ' * self.r.randint(1, 3)
        return s

    def number(self, n):
        return str(n)

    def coord(self, x):
        x = str(x)
        if 'fractions' in self.on and self.r.random() < .4:
            p, q = (x.split('/') + ['1'])[:2]
            k = self.r.choice([1, 2, 3])
            return '%d/%d' % (int(p) * k, int(q) * k)
        return x

    def term(self, c, name, first):
        """tokens of one term of a constraint"""
        a = abs(c)
        num = str(a) if (a != 1 or self.has('ones', .5)) else ''
        if self.has('split_sign', .5):
            return ['-' if c < 0 else '+', num + name]
        if c < 0:
            return ['-' + num + name]
        if first and not self.has('plus', .5):
            return [num + name]
        if self.has('plus', .5) or not first:
            return [('+' if self.r.random() < .8 else '') + num + name]
        return [num + name]

    def constraint(self, row, equation):
        row = list(row)
        sign = 1
        rel = '=='if (equation and self.has('eqeq')) else '=' if equation else '<='
        named = self.names and 'named' in self.on and self.r.random() < .8
        unnamed_rel = not named and 'unnamed_rel' in self.on and self.r.random() < .8
        if (named or unnamed_rel) and self.has('ge', .5):
            row = [-x for x in row]
            rel = rel if equation else '>='
        if named:
            terms = list(enumerate(row[:-1]))
            if self.has('order', .7):
                self.r.shuffle(terms)
            toks = []
            for i, c in terms:
                if c == 0 and not self.has('zeros', .3):
                    continue
                toks += self.term(c, self.names[i], not toks)
            if not toks:
                toks = ['0' + self.names[0]]
            return toks + [rel, str(-row[-1])]
        if unnamed_rel:
            return [str(x) for x in row[:-1]] + [rel, str(-row[-1])]
        return [str(x) for x in row]

    def image(self, row):
        terms = [(c, i) for i, c in enumerate(row) if c != 0 or self.has('zeros', .2)]
        if 'map_terms' in self.on:
            if self.r.random() < .5:
                self.r.shuffle(terms)
            if terms and self.r.random() < .3:
                c, i = terms.pop(self.r.randrange(len(terms)))
                k = self.r.choice([1, -1, 2])
                terms += [(c - k, i), (k, i)]
                self.r.shuffle(terms)
        s = ''
        for c, i in terms:
            n = self.names[i] if i < self.d else ''
            a = abs(c)
            num = str(a) if (n == '' or a != 1 or self.has('ones', .3)) else ''
            s += ('-' if c < 0 else '+' if (s or self.has('plus', .2)) else '') + num + n
        return s or '0' + self.names[0]

    def render(self, doc):
        doc = list(doc)
        if 'sections' in self.on:
            # names before maps before everything that uses them; otherwise free
            head = [s for s in doc if s[0] in ('names', 'maps')]
            rest = [s for s in doc if s[0] not in ('names', 'maps')]
            if any(k == 'RI' for k, _ in rest):
                rest = sorted(rest, key=lambda s: s[0] == 'RI')
            else:
                self.r.shuffle(rest)
            doc = head + rest
        if 'dim' in self.on:
            doc.insert(self.r.randint(0, len(doc)), ('dim', None))
        lines = []
        blank = lambda p: lines.extend([self.r.choice(['', '', ' ', '\t', '  '])] * self.r.randint(1, 2)) if ('blank' in self.on and self.r.random() < p) else None
        for kind, rows in doc:
            blank(.5)
            if kind == 'dim':
                lines.append(self.line([self.r.choice(DIM) % self.d]))
                continue
            kw = self.r.choice(KEY[kind]) if 'keywords' in self.on else KEY[kind][0]
            lines.append(self.line([kw]) if self.has('spaces', .3) else kw)
            blank(.4)
            if kind == 'names':
                ns = list(rows)
                if 'many_lines_names' in self.on:
                    while ns:
                        k = self.r.randint(1, len(ns))
                        lines.append(self.line(ns[:k]))
                        ns = ns[k:]
                        blank(.2)
                else:
                    lines.append(self.line(ns))
            for row in rows if kind != 'names' else []:
                if kind == 'maps':
                    lines.append(self.line([self.image(r) for r in row]))
                elif kind in ('V', 'RV'):
                    lines.append(self.line([self.coord(x) for x in row], True))
                elif kind in ('R', 'RR'):
                    lines.append(self.line([str(x) for x in row], True))
                else:
                    lines.append(self.line(self.constraint(row, kind == 'E'), True))
                blank(.2)
            if self.has('end', .7) and kind not in ('names',):
                lines.append(self.r.choice(['END', 'End', 'END ', ' END'] if 'spaces' in self.on else ['END', 'End']))
        blank(.5)
        nl = '\r\n' if 'crlf' in self.on else '\n'
        text = nl.join(lines)
        return text if 'nonl' in self.on else text + nl
