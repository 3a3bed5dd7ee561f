from common import *
"""Driver for harness/alg.cpp: commands in, parsed answers out"""
TYPES = ['16', '32', '64', 'safe', 'inf']
LIMIT = {'16': 1 << 15, '32': 1 << 31, '64': 1 << 63, 'safe': 1 << 31, 'inf': 1 << 31}     # what can be written to / read from the harness


def build_alg():
    return {'alg': build.harness('alg.cpp', flags=('-O1', '-D_GLIBCXX_ASSERTIONS'))}


def row(r):
    return '%d %s' % (len(r), ' '.join(map(str, r)))


def matrix(M, cols=None):
    c = len(M[0]) if M else (cols or 0)
    return '%d %d %s' % (len(M), c, ' '.join(str(x) for r in M for x in r))


def image_terms(r):
    """image (row of d+1 coefficients) as terms"""
    return [(i, x) for i, x in enumerate(r) if x]


def maps(ms, d):
    """maps given as d x (d+1) affine matrices; the constant is mapped to itself"""
    out = ['%d' % len(ms)]
    for A in ms:
        imgs = [image_terms(r) for r in A] + [[(d, 1)]]
        out.append('%d' % len(imgs))
        for im in imgs:
            out.append('%d %s' % (len(im), ' '.join('%d %d' % t for t in im)))
    return ' '.join(out)


class Alg(Base):
    def build(self):
        return build_alg()

    def call(self, ctx, typ, cmds):
        """-> list of answers: ('v', n) / ('r', row) / ('m', rows) / ('t', text) / ('p', ...)"""
        text = '\n'.join(cmds) + '\n'
        rc, out, err = ctx.exec([ctx.env['alg'], typ], stdin=text, note=text)
        if rc != 0:
            raise Viol('%s: %s (exit status %r)' % (cmds[0].split()[0], out.splitlines()[-1:] or err[-200:], rc))
        ans = []
        lines = out.split('\n')
        i = 0
        try:
            while lines[i] != 'end':
                w = lines[i].split(' ')
                i += 1
                if w[0] == 'v':
                    ans.append(int(w[1]))
                elif w[0] == 'r':
                    ans.append(tuple(int(x) for x in w[1:]))
                elif w[0] == 'm':
                    n = int(w[1])
                    ans.append([tuple(int(x) for x in l.split(' ')[1:]) for l in lines[i:i + n]])
                    i += n
                elif w[0] == 't':
                    n = int(w[1])
                    ans.append('\n'.join(lines[i:i + n + 1]))
                    i += n + 1
                elif w[0] == 'p':
                    x = [int(y) for y in w[1:]]
                    k = x.pop(0)
                    m = []
                    for _ in range(k):
                        t = x.pop(0)
                        m.append([(x[2 * j], x[2 * j + 1]) for j in range(t)])
                        x = x[2 * t:]
                    ans.append(m)
                else:
                    raise IndexError
        except (IndexError, ValueError):
            raise Viol('unexpected output of the harness: %r' % out[-300:])
        return ans
