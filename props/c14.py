from common import *

METHODS = {'dd': ['dd', 'double-description', 'double_description'], 'ad': ['ad', 'adjacency-decomposition', 'adjacency_decomposition']}
SORTS = {'lex_asc': ['lex_asc', 'lex_up', 'lexicographic_ascending'], 'lex_desc': ['lex_desc', 'lex_down', 'lexicographic_descending'], 'rev': ['rev', 'reverse'],
         'nz_asc': ['nz_asc', 'nz_up', 'nonzero_ascending'], 'nz_desc': ['nz_desc', 'nz_down', 'nonzero_descending']}
TYPES = ['16', '32', '64', 'safe', 'inf']
INVALID = [['-m', 'xx'], ['-m=cd'], ['--method=dda'], ['--method='], ['-m'], ['-i', '33'], ['-i', 'infinite'], ['-i=8'], ['--integer-type=64bit'], ['--integer-type='], ['-i'],
           ['-t', '0'], ['-t', '-1'], ['-t=-3'], ['-t', 'x'], ['-t', '1x'], ['-t', '1.5'], ['-t=1,2'], ['--threads=0'], ['--threads='], ['--threads=four'], ['-t'], ['-t', '99999999999'],
           ['-s', 'foo'], ['-s=up'], ['--sorting='], ['--sorting=asc'], ['-s'], ['-k'], ['-k', '/nonexistent'], ['--known-data=/nonexistent'], ['-threads=3'], ['--thread=3'], ['--int=64'], ['--meth=dd'],
           ['--sort=rev'], ['--known=x'], ['-mdd'], ['-t4'], ['-i64'], ['-srev'], ['SECOND_FILE']]
HELP = [['-h'], ['--h'], ['-help'], ['--help'], ['?']]
VERSION = [['-v'], ['--v'], ['-version'], ['--version']]
TOPICS = [['c', '-c', 'check', '--check'], ['i', '-i', 'integer-type', '--integer-type'], ['m', '-m', 'method', '--method'], ['s', '-s', 'sorting', '--sorting'], ['t', '-t', 'threads', '--threads'],
          ['h', '-h', 'help', '--help', '?'], ['v', '-v', 'version', '--version']]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['forms', 'forms', 'forms', 'sort', 'sort', 'invalid', 'help']))
    c = {'kind': kind}
    fe = draw(st.booleans())
    if kind == 'sort':
        d = draw(I(1, 4))
        key = draw(st.sampled_from(sorted(SORTS)))
        n = draw(I(3, 9)) if key[:2] != 'nz' else draw(I(2, d + 1))
        if key[:2] == 'nz':     # rows with pairwise different numbers of entries: the order is determined
            P = []
            for k in draw(st.permutations(range(d + 1)))[:n]:
                p = [draw(st.sampled_from([1, -1, 2, 3, -2])) if i < k else 0 for i in range(d)]
                P.append(list(draw(st.permutations(p))))
        else:
            P = draw(gen.pts(d, n, 3))
        ties = draw(I(0, 2)) == 0
        if ties:            # many rows, equal in the given order: only the set of rows is determined for nz_*
            P = draw(gen.pts(d, draw(I(2, 3)), 2))
            P = [list(P[draw(I(0, len(P) - 1))]) for _ in range(draw(st.sampled_from([5, 17, 18, 25, 40])))]
        R = [] if key[:2] == 'nz' else [r for r in draw(gen.pts(d, draw(I(0, 2)), 1)) if any(r)]
        c.update({'fe': fe, 'd': d, 'V': P, 'R': R, 'key': key, 'word': draw(st.sampled_from(SORTS[key])), 'form': draw(I(0, 2)), 'ties': ties, 'b': draw(I(1, 2))})
        return c
    d = draw(I(1, 3))
    if fe:
        c.update({'fe': True, 'd': d, 'V': draw(gen.pts(d, draw(I(1, 6)), 2)), 'R': [r for r in draw(gen.pts(d, draw(I(0, 1)), 1)) if any(r)]})
    else:
        A = []
        for i in range(d):
            for s in (1, -1):
                e = [0] * (d + 1)
                e[i], e[d] = s, -draw(I(1, 2))
                A.append(e)
        c.update({'fe': False, 'd': d, 'I': A + draw(gen.pts(d + 1, draw(I(0, 2)), 1)), 'E': []})
    c['m'] = draw(st.sampled_from(['dd', 'ad', None]))
    c['opts'] = []
    if c['m']:
        c['opts'].append(['m', draw(st.sampled_from(METHODS[c['m']])), draw(I(0, 2))])
    if draw(st.booleans()):
        c['opts'].append(['i', draw(st.sampled_from(TYPES[1:])), draw(I(0, 2))])
    if draw(st.booleans()):
        c['opts'].append(['t', str(draw(I(1, 9))), draw(I(0, 2))])
    if draw(st.booleans()):
        c['opts'].append(['s', draw(st.sampled_from([w for l in SORTS.values() for w in l])), draw(I(0, 2))])
    if draw(I(0, 3)) == 0:
        c['opts'].append(['c', draw(st.sampled_from(['-c', '--check', '--checked'])), 0])
    if draw(I(0, 4)) == 0:
        c['opts'].append(['k', 'known', draw(I(0, 3))])
    c['opts'] = list(draw(st.permutations(c['opts'])))
    c['filepos'] = draw(I(0, 6))
    c['fname'] = draw(st.sampled_from(['input', 'a.poi', 'x=y', 'file with space', 'dd', 'ad.ieq', 'lex_asc', 'inf', '4']))
    if kind == 'invalid':
        c['bad'] = draw(I(0, len(INVALID) - 1))
        c['opts'] = [o for o in c['opts'] if o[0] not in 'k']
    if kind == 'help':
        c['what'] = draw(st.sampled_from(['help', 'version', 'topic', 'topic', 'none', 'unknown']))
        c['pick'] = [draw(I(0, 63)), draw(I(0, 63)), draw(I(0, 2))]
    return c


LONG = {'m': '--method=', 'i': '--integer-type=', 't': '--threads=', 's': '--sorting=', 'k': '--known-data='}


def spell(o):
    k, v, form = o
    if k == 'c':
        return [v]
    if form == 0:
        return ['-' + k, v]
    if form == 1:
        return ['-%s=%s' % (k, v)]
    return [LONG[k] + v]


class P(Base):
    ID = 'C14'
    COUNT = {'quick': 16000, 'thorough': 300000}
    RULE = ('(a) random combinations, orders and spellings (-m dd, -m=dd, --method=double-description, ...) of all options and positions and names of the input file: the result is that of the reference model and '
            'has the format of the selected method; (b) -s X gives literally the output of the file sorted accordingly; (c) %d kinds of invalid options are rejected without output; (d) help and version requests '
            'succeed without touching the input. Non-trivial: (a) with at least two options, (b) with rows whose order changes, (c), (d)' % len(INVALID))

    def strategy(self, env):
        return cases()

    def args(self, c, ctx):
        toks = [spell(o) for o in c['opts']]
        i = c['filepos'] % (len(toks) + 1)
        toks.insert(i, [c['fname']])
        return [x for t in toks for x in t]

    def run(self, c, ctx, text, args, files=()):
        ctx.write(c.get('fname', 'input'), text)
        for n, t in files:
            ctx.write(n, t)
        return ctx.exec([ctx.env['panda'], *args], note=text)

    def judge(self, c, ctx):
        ctx.feature(c['kind'])
        getattr(self, 'judge_' + c['kind'])(c, ctx)

    def text(self, c):
        return fe_text(c) if c['fe'] else ve_text(c)

    def judge_forms(self, c, ctx):
        d = c['d']
        m = c['m'] or 'ad'
        files = []
        ref = poly.facets(q(c['V']), c['R'], d) if c['fe'] else poly.generators(c['I'], c['E'], d)
        if not c['fe'] and (ref[0] or not any(x[-1] for x in ref[2])):
            raise Skip()
        if any(o[0] == 'k' for o in c['opts']):
            x = sorted(ref[2])
            if not x:
                raise Skip()
            if c['fe']:
                files = [('known', 'Inequalities:\n' + ppl.vrow(x[0]) + '\n')]
            else:
                g = x[0]
                files = [('known', 'Vertices:\n' + ppl.vrow([F(y, g[-1]) for y in g[:-1]]) + '\n' if g[-1] else 'Rays:\n' + ppl.vrow(g[:-1]) + '\n')]
        args = self.args(c, ctx)
        rc, out, err = self.run(c, ctx, self.text(c), args, files)
        ctx.nontrivial = len(c['opts']) >= 2
        ctx.feature(*['form %s %d' % (o[0], o[2]) for o in c['opts']])
        if c['fe']:
            eqs, iq = ppl.fe_output(rc, out, err, d)
            ppl.cmp_facets(eqs, iq, c['V'], c['R'], d, ref)
        else:
            ppl.cmp_generators(ppl.ve_output(rc, out, err, d, m), c['I'], c['E'], d, ref)
        name = {'ad': 'adjacency decomposition', 'dd': 'double description'}[m]
        if name not in err:
            raise Viol('%s was selected, but is not announced: %r' % (name, err[:100]))

    def judge_sort(self, c, ctx):
        rows, rays, d = c['V'], c['R'], c['d']
        key = c['key']

        def order(rows, h):
            full = lambda r: list(r) + h
            if key == 'lex_asc':
                return sorted(rows, key=full)
            if key == 'lex_desc':
                return sorted(rows, key=full, reverse=True)
            if key == 'rev':
                return rows[::-1]
            return sorted(rows, key=lambda r: sum(1 for x in r if x) * (1 if key == 'nz_asc' else -1))
        if c['fe']:
            a = ppl.text_vertices(rows, rays)
            b = ppl.text_vertices(order(rows, [1]), order(rays, [0]))
            changed = order(rows, [1]) != rows
        else:
            rows = [r + [-c['b']] for r in rows]
            a = ppl.text_ineqs(rows)
            b = ppl.text_ineqs(order(rows, []))
            changed = order(rows, []) != rows
        opts = ['-m', 'dd', '-i', 'inf']
        rc1, out1, _ = ctx.panda(a, *opts, *spell(['s', c['word'], c['form']]))
        rc2, out2, _ = ctx.panda(b, *opts)
        ctx.nontrivial = changed
        ctx.feature('sort ' + c['word'], 'ties' if c['ties'] else None)
        if rc1 != rc2:
            raise Viol('-s %s: exit status %r, without: %r' % (c['word'], rc1, rc2))
        if sorted(out1.split('\n')) != sorted(out2.split('\n')):
            raise Viol('-s %s gives other rows than the input file in that order' % c['word'])
        if out1 != out2 and not (c['ties'] and key[:2] == 'nz'):
            raise Viol('-s %s does not give the same output as the input file in that order' % c['word'])
        if changed:
            _, out3, _ = ctx.panda(a, *opts)
            ctx.feature('order visible' if out3 != out1 else None)

    def judge_invalid(self, c, ctx):
        bad = list(INVALID[c['bad']])
        key = bad[0].lstrip('-')[:1]
        c = dict(c, opts=[o for o in c['opts'] if o[0] != key and o[0] != 'c'])
        if key == 't':      # (double description does not use threads and does not look at the option)
            c['opts'] = [o for o in c['opts'] if o[0] != 'm']
        if bad == ['SECOND_FILE']:
            bad = ['second']
        args = self.args(c, ctx)
        if len(bad) == 1 and '=' not in bad[0] and bad[0] in ('-m', '-i', '-t', '-s', '-k'):
            args = args + bad           # parameter missing
        else:
            i = 0 if c['filepos'] % 2 else len(args)
            args = args[:i] + bad + args[i:]
        rc, out, err = self.run(c, ctx, self.text(c), args)
        ctx.nontrivial = True
        ctx.feature('invalid ' + ' '.join(bad))
        if rc == 0:
            raise Viol('invalid option %r is accepted' % ' '.join(bad))
        if out.strip():
            raise Viol('invalid option %r: results are printed' % ' '.join(bad))
        if not err.strip():
            raise Viol('invalid option %r is rejected without a message' % ' '.join(bad))
        if rc < 0 and rc != -6:
            raise Viol('invalid option %r makes panda die from signal %d' % (' '.join(bad), -rc))

    def judge_help(self, c, ctx):
        what, (a, b, f) = c['what'], c['pick']
        ctx.nontrivial = True
        ctx.feature('help ' + what)
        exe = ctx.env['panda']
        if what == 'none':
            rc, out, err = ctx.exec([exe])
            if rc != 0 or '--method' not in out + err:
                raise Viol('calling panda without arguments does not show the list of options')
            return
        args = [x for t in [spell(o) for o in c['opts'] if o[0] != 'c'] for x in t]
        if what in ('help', 'version'):
            x = (HELP if what == 'help' else VERSION)
            w = x[a % len(x)]
            if w == ['-h'] or b % 2:
                args = args + w         # (-h followed by anything asks for help on that)
            else:
                args = w + args
            rc, out, err = ctx.exec([exe, *args])
            if rc != 0:
                raise Viol('%s fails' % what)
            o = out + err
            need = ['--integer-type', '--known-data', '--method', '--sorting', '--check', '--threads', '--help'] if what == 'help' else ['PANDA', 'revision']
            for n in need:
                if n not in o:
                    raise Viol('%s does not mention %s' % (what, n))
            if 'enumeration with' in o or 'Exception' in o:
                raise Viol('%s request starts a calculation' % what)
            return
        if what == 'topic':
            t = TOPICS[a % len(TOPICS)]
            w = t[b % len(t)]
            forms = lambda w: [['-h', w], ['-h=' + w], ['--help=' + w], ['--help-command=' + w]]
            outs = set()
            for k, fm in enumerate(forms(w) + [['--help=' + t[0]]]):
                rc, out, err = ctx.exec([exe, *fm])
                if rc != 0 or not (out + err).strip():
                    raise Viol('no help for %r' % fm)
                outs.add(out + err)
            if len(outs) != 1:
                raise Viol('different spellings of a request for help on %r give different texts' % w)
            return
        rc, out, err = ctx.exec([exe, ['--help=nosuchthing', '--help-command=xyz', '-h=foo'][f]])
        if rc == 0:
            raise Viol('help on an unknown command succeeds')


PROP = P()
