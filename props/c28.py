from common import *
"""helpers bound to scopes"""
NS = {'delay': 1, 'delayms': 10**6, 'delays': 10**9}


def stmt(depth):
    k = I(0, 9)
    dur = st.one_of(st.sampled_from([0, 1, 5, 50, 999, 1000, 3600, 10**6]), I(0, 2000))
    s = [st.tuples(st.just('log'), k, st.just(0)), st.tuples(st.just('guard'), k, st.just(0)), st.tuples(st.just('guard'), k, st.just(0)), st.tuples(st.sampled_from(sorted(NS)), k, dur),
         st.tuples(st.sampled_from(sorted(NS)), k, st.sampled_from([0, 1, 2])),
         st.tuples(st.just('dismiss'), k, st.just(0)), st.tuples(st.just('move'), k, st.just(0)), st.tuples(st.just('wait'), st.sampled_from([1, 10, 1001, 10**6 + 1, 10**9 + 1, 4 * 10**12]), st.just(0)),
         st.tuples(st.sampled_from(['throw', 'return', 'log', 'log']), k, st.just(0)), st.tuples(st.just('reverse'), I(0, 5), I(-3, 3)), st.tuples(st.just('thread'), k, st.sampled_from([0, 3, 50]))]
    if depth:
        s += [st.tuples(st.sampled_from(['block', 'try']), st.just(0), st.just(0), st.deferred(lambda: body(depth - 1)))] * 1
        s += [st.tuples(st.just('try'), st.just(0), st.just(0), st.deferred(lambda: body(depth - 1)).map(list))]
    return st.one_of(s).map(list)


def body(depth):
    return st.lists(stmt(depth), max_size=6)


def text(b):
    return ' '.join('%s %d %d %s' % (s[0], s[1], s[2], text(s[3]) if len(s) > 3 else '') for s in b) + ' ]'


class Boom(Exception):
    pass


class Model:
    def __init__(self):
        self.log = []
        self.now = 0
        self.entries = []
        self.feat = set()

    def end(self, e):
        """end of the life of a guard / delayed action"""
        if e['live']:
            if e['min'] is not None and self.now - e['start'] == e['min'] > 0:
                raise Skip()            # exactly the limit: not specified
            if e['min'] is None or self.now - e['start'] >= e['min']:
                self.log.append('run %d' % e['k'])
            else:
                self.feat.add('too early')
        else:
            self.feat.add('dismissed or moved')

    def scoped(self, e, b, i):
        self.entries.append(e)
        try:
            return self.run(b, i)
        finally:
            self.end(e)

    def run(self, b, i=0):
        while i < len(b):
            op, a, n = b[i][:3]
            i += 1
            if op == 'log':
                self.log.append('log %d' % a)
            elif op == 'wait':
                self.now += a
            elif op == 'throw':
                self.feat.add('exception')
                raise Boom(a)
            elif op == 'return':
                return True
            elif op in ('block', 'try'):
                mark = len(self.entries)
                try:
                    if self.run(b[i - 1][3]):
                        return True
                except Boom as e:
                    if op == 'block':
                        raise
                    self.log.append('caught %d' % e.args[0])
                del self.entries[mark:]
            elif op == 'dismiss':
                if self.entries:
                    self.entries[a % len(self.entries)]['live'] = False
            elif op == 'guard':
                return self.scoped({'k': a, 'live': True, 'min': None}, b, i)
            elif op in NS:
                return self.scoped({'k': a, 'live': True, 'min': n * NS[op], 'start': self.now}, b, i)
            elif op == 'move':
                if self.entries:
                    old = self.entries[a % len(self.entries)]
                    new = dict(old)
                    old['live'] = False
                    return self.scoped(new, b, i)
            elif op == 'thread':
                try:
                    return self.run(b, i)
                finally:
                    self.log.append('joined %d' % a)
            elif op == 'reverse':
                v = [j * n for j in range(a)]
                l = list(range(a))
                w = [x + 1 for x in v]
                self.log.append(' '.join(['reverse'] + [str(x) for x in v[::-1] + l[::-1] + w + [x + 1 for x in l] + w[::-1]]))
        return False


class P(Base):
    ID = 'C28'
    COUNT = {'quick': 12000, 'thorough': 300000}
    RULE = ('random programs of nested scopes and try blocks with scope guards, delayed actions (virtual clock), joining threads, dismissals, moves, exceptions, early returns and reverse ranges, run by a driver and by a model; the logs '
            'have to agree. Non-trivial: at least two actions bound to a scope and an exception, a return, a move or a dismissal')

    def build(self):
        return {'util': build.harness('util.cpp')}

    def strategy(self, env):
        return st.fixed_dictionaries({'p': st.lists(stmt(3), min_size=1, max_size=8)})

    def judge(self, c, ctx):
        m = Model()
        try:
            try:
                m.log.append('returned' if m.run(c['p']) else 'end')
            except Boom as e:
                m.log.append('caught %d' % e.args[0])
        finally:
            pass
        t = text(c['p'])
        rc, out, err = ctx.exec([ctx.env['util'], 'scope'], stdin=t, note=t)
        if rc != 0:
            raise Viol('exit status %r: %s' % (rc, err[-200:]))
        got = out.split('\n')[:-1]
        if got != m.log:
            i = next((i for i, (x, y) in enumerate(zip(got, m.log)) if x != y), min(len(got), len(m.log)))
            raise Viol('event %d is %r, expected %r' % (i, got[i] if i < len(got) else 'missing', m.log[i] if i < len(m.log) else 'the end'))
        ctx.feature(*sorted(m.feat))
        ctx.nontrivial = t.count('guard') + t.count('delay') + t.count('thread') >= 2 and bool(m.feat)


PROP = P()
