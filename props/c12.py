from common import *
import c05


@st.composite
def cases(draw):
    c = draw(st.one_of(gen.sym_v().filter(lambda x: x is not None), gen.sym_h().filter(lambda x: x is not None)))
    d = c['d']
    c['mut'] = draw(st.sampled_from(['none', 'none', 'drop', 'drop', 'extra', 'map', 'singular', 'none-present', 'swapmap']))
    c['at'] = draw(I(0, 40))
    c['pt'] = [draw(I(-2, 2)) for _ in range(d + 1)]
    c['dup'] = draw(st.booleans())
    c['k'] = draw(st.sampled_from([1, 1, 2, 3]))
    c['flag'] = draw(st.sampled_from(['-c', '--check', '--checked']))
    c['entry'] = [draw(I(0, d - 1)), draw(I(0, d)), draw(st.sampled_from([1, -1, 2]))]
    return c


class P(Base):
    ID = 'C12'
    COUNT = {'quick': 14000, 'thorough': 250000}
    RULE = ('symmetric polyhedra (as in C05) with and without one defect (a row missing from / added to the set of rows, a changed or singular map), run with --check. An independent check whether every '
            'map is a bijection on the rows (duplicates and positive multiples are one row) decides whether the input has to be accepted (with the same result as without --check) or rejected '
            '(non-zero exit status, no rows). Non-trivial: at least one map moves a row')

    def strategy(self, env):
        return cases()

    def judge(self, c, ctx):
        d = c['d']
        names = c05.names_of(d)
        maps = [[list(r) for r in m] for m in c['maps']]
        fe = 'rays' in c
        rows = [list(v) for o in c['orbits'] for v in o]
        rays = [list(v) for o in c.get('rays', []) for v in o]
        eqs = [list(v) for o in c.get('eqs', []) for v in o]
        mut = c['mut']
        if mut == 'drop' and len(rows) > 1:
            del rows[c['at'] % len(rows)]
        elif mut == 'extra':
            rows.append([x for x in c['pt']][:len(rows[0])] if fe else c['pt'])
        elif mut == 'map':
            i, j, k = c['entry']
            m = maps[c['at'] % len(maps)]
            m[i][j] += k
        elif mut == 'singular':
            m = maps[c['at'] % len(maps)]
            i, j, k = c['entry']
            m[i] = list(m[j % d]) if i != j % d else [0] * (d + 1)
        elif mut == 'swapmap':
            m = maps[c['at'] % len(maps)]
            i, j, k = c['entry']
            m[i], m[j % d] = m[j % d], m[i]
        if not fe and not any(any(r[:-1]) for r in rows):
            raise Skip()
        act = gen.act_generator if fe else gen.act_row

        def bijection(canon_rows):
            S = set(canon_rows)
            for m in maps:
                img = [poly.primitive(act(m, r)) for r in S]
                if not set(img) <= S or len(set(img)) != len(S):
                    return False
            return True
        if fe:
            ok = bijection(poly.homog(q(rows), [])) and (not rays or bijection(poly.homog([], rays)))
            canon = poly.homog(q(rows), rays)
        else:
            ok = bijection([poly.primitive(r) for r in rows])
            canon = [poly.primitive(r) for r in rows]
        moves = any(poly.primitive(act(m, r)) != r for m in maps for r in canon)
        # presentation of the rows: duplicates, multiples
        out_rows = list(rows)
        if c['dup']:
            out_rows.append(rows[c['at'] % len(rows)])
        if not fe and c['k'] > 1:
            i = c['at'] % len(out_rows)
            out_rows[i] = [c['k'] * x for x in out_rows[i]]
        if fe and c['k'] > 1:
            i = c['at'] % len(out_rows)
            out_rows[i] = ['%d/%d' % (x * c['k'], c['k']) for x in out_rows[i]]
        pre = c05.header(names, maps)
        text = ppl.text_vertices(out_rows, rays, pre=pre) if fe else ppl.text_ineqs(out_rows, eqs, pre=pre)
        o = opts_of(c, c['m'])
        ctx.feature('fe' if fe else 've', 'mut:' + mut, 'valid' if ok else 'invalid', c['m'])
        if ok and not fe:
            # --check verifies the inequalities only: maps of infinite order (on the lines of the polyhedron) or that do not respect the equations are not in its scope
            if poly.rank(rows + [[0] * d + [-1]]) < d + 1:
                raise Skip()
            rr = poly.rref(eqs)[0] if eqs else []
            if any(poly.rref([act(m, e) for e in eqs])[0] != rr for m in maps if eqs):
                raise Skip()
        rc, out, err = ctx.panda(text, *o, c['flag'])
        ctx.nontrivial = moves
        if not ok:
            if rc == 0:
                raise Viol('--check accepts a map that is not a bijection on the rows')
            if out.strip():
                raise Viol('--check: rows are printed for invalid input')
            if rc < 0:
                raise Viol('--check: invalid input makes panda die from signal %d' % -rc)
            return
        ppl.need_ok(rc, err)
        # valid maps: the result is the same as without the check
        rc2, out2, err2 = ctx.panda(text, *o)
        ppl.need_ok(rc2, err2)
        if not fe:
            lin, piv, g = poly.generators(rows, eqs, d)
            if lin or not any(x[-1] for x in g):
                return
        if sorted(out.splitlines()) != sorted(out2.splitlines()):
            raise Viol('--check changes the result of a valid input')


PROP = P()
