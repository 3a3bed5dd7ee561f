from common import *
import base64, os, pbt, subprocess, shutil, sys, glob, re, time
import c10, c05, c16, c02
"""memory safety and termination for arbitrary input: sanitized program on mutated files, and
coverage-guided fuzzing (libFuzzer) of everything that reads input"""

FRAGMENTS = ['\n', '\n\n', ' ', '\t', '\r\n', '\r', '\x00', '<=', '>=', '=', '==', '<', '>', '-', '+', '/', '(', ')', '( 1 )', '0', '1', '-1', '2147483647', '-2147483648', '2147483648', '99999999999999999999', '1/0', '1/2', '/3', '-/2',
             '0/5', 'x', 'x1', '2x1', '-x1', '+x2', '1.5', '1e9', 'END', 'END\n', 'DIM=', 'DIM = 2\n', 'DIM=0\n', 'DIM=-1\n', 'DIM=99999999999\n', 'DIMENSION=3', 'Names:\n', 'Names:\n\n', 'Maps:\n', 'Maps:\n\n', 'Vertices:\n', 'Rays:\n',
             'Reduced Vertices:\n', 'Inequalities:\n', 'Equations:\n', 'Reduced Inequalities:\n', 'INEQUALITIES_SECTION\n', 'CONV_SECTION\n', 'CONE_SECTION\n', 'Reduced ', ':', ',', ';', '#', '*', 'é', '\xff', '\u2028', 'a' * 70, '(' * 9, '1 ' * 40, '- - 1', '+ + 1', '<= 1\n', '<=\n', '0 0 0\n', '0\n']


@st.composite
def mutated(draw, text):
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3, 6]))):
        k = draw(st.sampled_from(['ins', 'ins', 'ins', 'del', 'dup', 'swap', 'cut', 'rep', 'tok', 'line', 'byte']))
        n = len(text)
        i = draw(I(0, n))
        if k == 'ins':
            text = text[:i] + draw(st.sampled_from(FRAGMENTS)) + text[i:]
        elif k == 'del':
            text = text[:i] + text[i + draw(I(1, 6)):]
        elif k == 'cut':
            text = text[:i]
        elif k == 'rep':
            text = text[:i] + draw(st.sampled_from(FRAGMENTS)) + text[i + draw(I(1, 4)):]
        elif k == 'byte':
            text = text[:i] + chr(draw(I(1, 255))) + text[i + 1:]
        elif k == 'tok':
            t = re.split(r'(\s+)', text)
            j = draw(I(0, len(t) - 1))
            t[j] = draw(st.sampled_from(FRAGMENTS))
            text = ''.join(t)
        else:
            ls = text.split('\n')
            j, m = draw(I(0, len(ls) - 1)), draw(I(0, len(ls) - 1))
            if k == 'dup':
                ls.insert(m, ls[j])
            elif k == 'swap':
                ls[j], ls[m] = ls[m], ls[j]
            else:
                del ls[j]
            text = '\n'.join(ls)
    return text


@st.composite
def cases(draw):
    c = draw(c10.cases().filter(lambda c: c.get('fam') not in ('many', 'wide')))
    text = c10.text_of(c)
    crowd = draw(I(0, 11)) == 0
    if crowd:               # many copies of some lines: sorting, long lists, all rows equal
        ls = text.split('\n')
        for _ in range(draw(I(1, 2))):
            j = draw(I(0, len(ls) - 1))
            ls[j:j + 1] = [ls[j]] * draw(st.sampled_from([16, 17, 18, 33, 65]))
        text = '\n'.join(ls)
    text = draw(mutated(text))
    opts = ['-m', draw(st.sampled_from(['dd', 'ad', 'ad'])), '-i', draw(st.sampled_from(['inf', 'safe'])), '-t', str(draw(st.sampled_from([1, 2, 3])))]
    if draw(I(0, 2)) == 0:
        opts.append('-c')
    if crowd or draw(I(0, 2)) == 0:
        opts += ['-s', draw(st.sampled_from(['lex_asc', 'lex_desc', 'nz_asc', 'nz_desc', 'rev']))]
    known = None
    if draw(I(0, 3)) == 0:
        d = c['d']
        known = 'Inequalities:\n' + ''.join(' '.join(map(str, r)) + '\n' for r in draw(gen.pts(d + 1, 2, 1))) if c['kind'] in ('fe', 'symv') else 'Vertices:\n' + ''.join(' '.join(map(str, r)) + '\n' for r in draw(gen.pts(d, 2, 1)))
        known = draw(mutated(known))
    return {'text': text, 'opts': opts, 'known': known, 'crowd': crowd}


SAN = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:hard_rss_limit_mb=2500:allocator_may_return_null=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'}


def sanitizer_report(err):
    m = re.search(r'(ERROR: AddressSanitizer:? [^\n]*|runtime error: [^\n]*|FUZZ-VIOLATION: [^\n]*|ERROR: libFuzzer: [^\n]*)', err)
    return m.group(1) if m else None


class P(Base):
    ID = 'C19'
    COUNT = {'quick': 7000, 'thorough': 150000}
    limit_memory = False
    RULE = ('(1) the inputs of C10 with up to six random mutations (fragments of the format, extreme numbers, bytes, deleted / repeated / exchanged lines and tokens, truncation, many copies of a line), with and without (mutated) known data and with '
            'random options, run under AddressSanitizer and UndefinedBehaviorSanitizer with -i inf / -i safe: no report, no signal, termination, and a message if the exit status is not zero. (2) libFuzzer on everything '
            'that reads input: additionally DOS line ends and final line ends do not change the result and what is read survives writing and reading. Non-trivial: the file is accepted or rejected after at least one mutation; '
            'evaluations include the executions of libFuzzer, which are not counted as distinct')

    def build(self):
        return build.sanitized()

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        env = dict(os.environ, **SAN)
        if 'fuzz' in c:
            data = base64.b64decode(c['fuzz'])
            p = ctx.write('fuzz-input', data)
            rc, out, err = ctx.exec([ctx.env['fuzz'], '-timeout=20', '-rss_limit_mb=4000', '-runs=1', p], env=env, note=repr(data), timeout=60)
            m = sanitizer_report(err)
            if rc != 0 and m:
                raise Viol(m)
            return
        text = c['text']
        enc = lambda s: s.encode('latin-1', 'replace')
        files = [('known', enc(c['known']))] if c['known'] is not None else []
        ctx.write('input', enc(text))
        for n, t in files:
            ctx.write(n, t)
        opts = c['opts'] + (['-k', 'known'] if files else [])
        maps = 'map' in text.lower()
        try:
            rc, out, err = ctx.exec([ctx.env['panda'], *opts, 'input'], env=env, note=text + ('\n[known]\n' + c['known'] if files else ''), timeout=3 if maps else 5 if files and '-c' not in opts else 20)
        except pbt.Hang:
            if maps:        # mutated maps may generate an infinite group: classes are infinite
                ctx.feature('infinite group (not judged)')
                raise Skip()
            if files and '-c' not in opts:      # unchecked known data that do not belong to the polyhedron
                ctx.feature('unchecked known data (not judged)')
                raise Skip()
            raise
        m = sanitizer_report(err)
        if 'hard rss limit exhausted' in err and maps:
            ctx.feature('infinite group (not judged)')
            raise Skip()
        if maps and 'reduced' in text.lower() and m and 'signed integer overflow' in m:
            ctx.feature('infinite group (not judged)')      # the orbits leave the range of the numbers
            raise Skip()
        ctx.feature('accepted' if rc == 0 else 'overflow' if rc == -6 else 'rejected', 'maps' if maps else None, 'known' if files else None, 'many equal lines' if c.get('crowd') else None, ' '.join(c['opts'][:4]))
        ctx.nontrivial = True
        if m:
            raise Viol(m)
        if rc == -6 and 'terminate called after throwing' in err and re.search(r'overflow|representable|conver|cast|narrow|range|fit into', err, re.I):
            return              # number does not fit: loud
        if rc not in (0, 1):
            raise Viol('exit status %r: %s' % (rc, err.strip()[-200:]))
        if rc == 1 and len([l for l in err.split('\n') if l.strip()]) < 1:
            raise Viol('fails without a message')

    def campaign(self, env, tier, seed):
        """libFuzzer, one process per core -> (executions, violating case or None, coverage)"""
        d = os.path.join(pbt.VERIF, '.build', 'fuzz-%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/corpus')
        texts = pbt.collect(cases(), 150, seed)
        for i, c in enumerate(texts):
            t = c['text'].encode('latin-1', 'replace')
            k = b'' if c['known'] is None else b'\x00' + c['known'].encode('latin-1', 'replace')
            with open(d + '/corpus/%d' % i, 'wb') as f:
                f.write(bytes([i % 16]) + t + k)
        with open(d + '/dict', 'w') as f:
            for x in FRAGMENTS:
                f.write('"%s"\n' % ''.join('\\x%02x' % b for b in x.encode('latin-1', 'replace')[:60]))
        runs, secs = (15000, 60) if tier == 'quick' else (2000000, 3000)
        ps = []
        for i in range(8):
            os.makedirs('%s/w%d' % (d, i))
            log = open('%s/log%d' % (d, i), 'wb')
            ps.append(subprocess.Popen([env['fuzz'], '-seed=%d' % (seed * 100 + i + 1), '-runs=%d' % runs, '-max_total_time=%d' % secs, '-max_len=500', '-timeout=20', '-rss_limit_mb=3000', '-malloc_limit_mb=2500', '-dict=' + d + '/dict',
                                        '-artifact_prefix=%s/w%d/' % (d, i), '-print_final_stats=1', '%s/w%d' % (d, i), d + '/corpus'], stdout=log, stderr=log, env=dict(os.environ, **SAN), cwd=d))
        for p in ps:
            p.wait()
        total, cov, viol = 0, 0, None
        for i in range(8):
            t = open('%s/log%d' % (d, i), errors='replace').read()
            m = re.search(r'number_of_executed_units: (\d+)', t)
            total += int(m.group(1)) if m else 0
            cov = max([cov] + [int(x) for x in re.findall(r' cov: (\d+) ', t)])
        crashes = sorted(glob.glob(d + '/w*/crash-*') + glob.glob(d + '/w*/timeout-*'), key=os.path.getsize)
        for a in crashes[:3]:
            ma = d + '/min'
            if 'crash-' in a:
                subprocess.run([env['fuzz'], '-minimize_crash=1', '-max_total_time=15', '-exact_artifact_path=' + ma, a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, **SAN), cwd=d)
            data = open(ma if os.path.exists(ma) else a, 'rb').read()
            viol = {'fuzz': base64.b64encode(data).decode()}
            break
        shutil.rmtree(d, ignore_errors=True)
        return total, viol, {'libfuzzer_executions': total, 'libfuzzer_edges': cov, 'libfuzzer_crashes': len(crashes)}


PROP = P()
