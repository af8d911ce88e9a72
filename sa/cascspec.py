"""The cascade model as documented: box types, volume classes, branching and weights (C03, C16, C17)."""
import itertools
from fractions import Fraction

from .suite import Run, X, b, n, param
from .terms import APPFLAGS, FALSE, NONE, TRUE, ONE, T, ZERO, add, app, cmp, g, isnull, land, lnot, mul, num, rewrite, sub, subterms, sym, tim
from .values import Arr, Lst, Obj, Ref, Ser, ax, subst

STARTING, ENCLOSED, ENDING, ISOLATED = 0, 1, 2, 3
TYPES = ('starting', 'enclosed', 'ending', 'isolated')
for _k in range(1, 20):
    APPFLAGS['cut%d' % _k] = ('nonan',)
APPFLAGS['cutin'] = ('nonan',)

SETUP = '''
%(v)s = melodist.cascade.CascadeStatistics()
%(v)s.p01 = a_p01
%(v)s.p10 = a_p10
%(v)s.pxx = a_pxx
%(v)s.wxx = a_wxx
%(v)s.threshold = a_thr
'''
FIELDS = (('p01', (2, 4)), ('p10', (2, 4)), ('pxx', (2, 4)), ('wxx', (7, 2, 4)))


def cell(name, *idx):
    return sym('%s[%s]' % (name, ','.join(map(str, idx))), 'nonan')


def array(r, name, shape):
    return r.i.alloc(Arr(shape, [cell(name, *k) for k in itertools.product(*map(range, shape))]))


def stats(r, prefix, nthr):
    """statistics object with identifiable fields"""
    env = dict(('a_' + f, array(r, prefix + f, shape)) for f, shape in FIELDS)
    env['a_thr'] = array(r, prefix + 'thr', (nthr,))
    v = 'cs_' + prefix.replace('.', '')
    r.script(SETUP % dict(v=v), **env)
    return v


def prepared(repo, levels, hourly, averaged, series=None, **options):
    """statistics and the daily series for a run of the cascade, and the statement to analyse"""
    r = Run(repo)
    if averaged:
        text = stats(r, '', levels)
    else:
        text = '[%s]' % ', '.join(stats(r, 's%d.' % k, 1) for k in range(levels))
    r.script('opts = ' + text)
    r.i.facts['cut'] = True
    kw = ''.join(', %s=%r' % kv for kv in sorted(options.items()))
    if not hourly:
        kw += ', hourly=False, level=%d' % levels
    env = dict(daily=series if series is not None else r.series('X', 'precip', X))
    r.i.st.frames['mod:client'].update(env)
    env['opts'] = r.i.st.frames['mod:client']['opts']
    return r, env, 'res = melodist.disagg_prec_cascade(daily, opts%s)' % kw


def disaggregate(repo, *args, **options):
    """run of the cascade on a daily series with symbolic statistics; each finished level gets a name"""
    r, env, text = prepared(repo, *args, **options)
    r.script(text)
    return r


def raw(q, axis=X):
    return app('elem', mk_col(axis), axis, q)


def element(q, axis=X):
    e = raw(q, axis)
    return g(isnull(e), ZERO, e)


def mk_col(axis):
    from .terms import col
    return col(axis.args[1], 'precip')


def boxtype(left, right):
    return ENCLOSED if left and right else ENDING if left else STARTING if right else ISOLATED


def classes(t):
    """class bounds given with four decimals stand for sevenths"""
    def f(u):
        if u.op == 'num' and u.args[0].denominator not in (1, 2, 4, 8, 16, 32):
            k = round(u.args[0] * 14)
            if 0 < k < 14 and abs(u.args[0] - Fraction(k, 14)) < Fraction(1, 1000):
                return num(Fraction(k, 14))
        return None
    return rewrite(t, f)


def shares(stat, thr, u, w, above, kind):
    """(first, second) share of a wet box"""
    p01, p10 = cell(stat + 'p01', above, kind), cell(stat + 'p10', above, kind)
    w1 = num(Fraction(13, 14))
    cum = [add(*[cell(stat + 'wxx', j, above, kind) for j in range(k + 1)]) for k in range(7)]
    for k in range(6, -1, -1):
        w1 = g(cmp('le', w, cum[k]), num(Fraction(2 * k + 1, 14)), w1)
    both = lambda a: g(cmp('le', u, p01), ZERO if a else ONE, g(cmp('le', u, add(p01, p10)), ONE if a else ZERO, w1 if a else sub(ONE, w1)))
    return both(True), both(False)


def draws(t):
    return sorted({x for x in subterms(t) if x.op == 'app' and x.args[0] == 'rand'}, key=lambda x: str(x.args[1]))


def places(n_):
    """(label, box number, assumptions) of the first, last and any other box"""
    q = sym('q', 'int', 'nonan')
    yield 'first box', ZERO, [cmp('le', num(2), n_)]
    yield 'last box', sub(n_, ONE), [cmp('le', num(2), n_)]
    yield 'inner box', q, [cmp('le', ONE, q), cmp('le', q, sub(n_, num(2)))]


def closed(t):
    """a draw hits a limit with probability zero: limits belong to the lower side"""
    def f(u):
        if u.op == 'cmp' and u.args[0] in ('lt', 'le'):
            l, r = bool(draws(u.args[1])), bool(draws(u.args[2]))
            if u.args[0] == 'lt' and l and not r:
                return cmp('le', u.args[1], u.args[2])
            if u.args[0] == 'le' and r and not l:
                return cmp('lt', u.args[1], u.args[2])
        return None
    return rewrite(t, f)


CONFIGS = [(5, True, True), (5, True, False), (9, False, True), (9, False, False), (10, False, True), (10, False, False), (11, False, True),
           (11, False, False)]


def label(levels, hourly, averaged):
    return '%s, %s statistics' % ('hourly' if hourly else '5 minutes from %d levels' % levels, 'averaged' if averaged else 'level-specific')


class Level(object):
    """one refinement in terms of its own input, draws, statistics and number of boxes"""
    stat, thr, boxes = 'own.', sym('own.thr', 'nonan'), sym('boxes', 'int', 'nonan')

    def __init__(self, no, cut, before, levels, averaged, exact=False):
        self.no, self.cut = no, cut
        self.first = before is None
        k = levels - no
        m = {app('len', X): mul(num(Fraction(1, 2 ** (no - 1))), self.boxes)}
        old, thr = ('', cell('thr', k)) if averaged else ('s%d.' % k, cell('s%d.thr' % k, 0))
        m[thr] = self.thr
        for f, shape in FIELDS:
            for idx in itertools.product(*map(range, shape)):
                m[cell(old + f, *idx)] = cell(self.stat + f, *idx)
        t = closed(cut.term if exact else classes(cut.term))
        self.rands = sorted({x.args[1] for x in draws(t)}, key=lambda x: (len(x), x))
        names = {x: 'draw%d' % j for j, x in enumerate(self.rands)}

        def f(u):
            if u.op == 'app' and u.args[0] == 'rand':
                return app('rand', names[u.args[1]], *u.args[2:])
            if u.op == 'app' and u.args[0] == before:
                return app('cutin', *u.args[1:])
            if u.op == 'app' and u.args[0] == 'stale':
                return app('stale', u.args[1], 'loop', *u.args[3:])
            return None
        self.term = rewrite(subst(t, m), f)
        self.rands = sorted(names.values())
        self.shape = self.alike()

    def alike(self):
        """the term with the names of its statistics and its threshold taken away where there is only one of each"""
        cells = [u for u in subterms(self.term) if u.op == 'sym' and '[' in u.args[0]]
        pre = {u.args[0].split('[')[0] for u in cells}
        thr = {u for u in cells if u.args[0].split('[')[0].endswith('thr')}
        pre = {x[:-3] for x in pre if not x.endswith('thr')}
        m = {}
        if len(pre) == 1 and len(thr) == 1:
            pre = list(pre)[0]
            for u in cells:
                m[u] = self.thr if u in thr else sym('own.' + u.args[0][len(pre):], *u.args[1])
        return subst(self.term, m) if m else self.term

    def V(self, q):
        return element(q) if self.first else app('cutin', q)

    def half(self, q, h):
        return subst(self.term, {tim('pos'): add(mul(num(2), q), num(h))})


def levels_of(r, levels, averaged, exact=False):
    """the refinements of a run, or the reason why they cannot be told; exact: class bounds as written"""
    if r.error or r.dead:
        return None, r.error or r.dead
    if r.i.undecided:
        return None, '; '.join(r.i.undecided[:3])
    out = []
    for c in r.i.loops.cuts:
        if draws(c.term):
            out.append(Level(len(out) + 1, c, out[-1].cut.name if out else None, levels, averaged, exact))
    if len(out) != levels:
        return None, '%d refinements with random numbers found, %d expected' % (len(out), levels)
    return out, None


class Unknown(Exception):
    pass


class Sum(object):
    """linear combinations of box values with box numbers a*p + b; p is the number of the day, at least `least`"""

    def __init__(self, cuts, atoms, least, p):
        self.cuts, self.atoms, self.least, self.p = cuts, atoms, least, p

    def lin(self, t):
        if t.op == 'num':
            return Fraction(0), t.args[0]
        if t is self.p:
            return Fraction(1), Fraction(0)
        if t.op == 'add':
            x = [self.lin(u) for u in t.args]
            return sum(a for a, c in x), sum(c for a, c in x)
        if t.op == 'mul':
            x = [self.lin(u) for u in t.args]
            free = [v for v in x if v[0]]
            k = Fraction(1)
            for v in x:
                if not v[0]:
                    k *= v[1]
            if not free:
                return Fraction(0), k
            if len(free) == 1:
                return k * free[0][0], k * free[0][1]
        if t.op in ('app', 'fn') and t.args[0] == 'mod' and isinstance(t.args[2], T) and t.args[2].op == 'num':
            a, c = self.lin(t.args[1])
            m = t.args[2].args[0]
            if m > 0 and (a / m).denominator == 1:
                return Fraction(0), c % m
        if t.op in ('app', 'fn') and t.args[0] in ('trunc', 'floor', 'int'):
            a, c = self.lin(t.args[1])
            if a.denominator == 1 and a >= 0 and c >= 0:
                return a, Fraction(c.numerator // c.denominator)
        raise Unknown('box number %s' % t)

    def cond(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == 'not':
            return not self.cond(t.args[0])
        if t.op in ('and', 'or'):
            v = [self.cond(u) for u in t.args]
            return all(v) if t.op == 'and' else any(v)
        if t.op == 'cmp':
            rel, l, rr = t.args
            a1, c1 = self.lin(l)
            a2, c2 = self.lin(rr)
            a, c = a1 - a2, c1 - c2
            lo = a * self.least + c
            if a == 0:
                return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[rel]
            if a > 0 and lo > 0:
                return {'eq': False, 'ne': True, 'lt': False, 'le': False, 'gt': True, 'ge': True}[rel]
            if a > 0 and lo >= 0 and rel in ('lt', 'ge'):
                return rel == 'ge'
        raise Unknown('condition %s' % t)

    def value(self, t):
        if t.op == 'num':
            return {None: t.args[0]} if t.args[0] else {}
        if t.op == 'g':
            return self.value(t.args[1] if self.cond(t.args[0]) else t.args[2])
        if t.op == 'add':
            out = {}
            for u in t.args:
                for k, v in self.value(u).items():
                    out[k] = out.get(k, 0) + v
            return out
        if t.op == 'mul':
            k, rest = Fraction(1), []
            for u in t.args:
                if u.op == 'num':
                    k *= u.args[0]
                else:
                    rest.append(u)
            if len(rest) == 1:
                return {a: k * v for a, v in self.value(rest[0]).items()}
        if t.op == 'app' and t.args[0] == 'psum':
            return {('psum', t.args[2], self.lin(t.args[1])): Fraction(1)}
        if t.op == 'app' and t.args[0] in self.cuts:
            a, c = self.lin(t.args[1])
            if t.args[0] in self.atoms:
                return {(t.args[0], a, c): Fraction(1)}
            return self.value(subst(self.cuts[t.args[0]].term, {tim('pos'): add(mul(num(a), self.p), num(c))}))
        raise Unknown('value %s' % str(t)[:200])

    def total(self, parts):
        """sum of linear combinations; running sums are written out"""
        from .values import lam_apply
        out = {}
        for d in parts:
            for k, v in d.items():
                out[k] = out.get(k, 0) + v
        while True:
            out = {k: v for k, v in out.items() if v}
            ps = [k for k in out if k is not None and k[0] == 'psum']
            if not ps:
                return out
            body = ps[0][1]
            mine = sorted((k for k in ps if k[1] is body), key=lambda k: k[2])
            if len({k[2][0] for k in mine}) != 1:
                raise Unknown('running sum')
            a = mine[0][2][0]
            if a == 0:
                marks = [(k[2][1], out.pop(k)) for k in mine]
                top, low = max(m for m, v in marks), Fraction(0)
            else:
                if sum(out[k] for k in mine) != 0:
                    raise Unknown('running sum from the beginning of the record')
                marks = [(k[2][1], out.pop(k)) for k in mine]
                top, low = max(m for m, v in marks), min(m for m, v in marks)
            if top.denominator != 1 or low.denominator != 1 or top - low > 5000:
                raise Unknown('running sum')
            for x in range(int(low), int(top)):
                f = sum(v for m, v in marks if m > x)
                if f:
                    for k, v in self.value(lam_apply(body, add(mul(num(a), self.p), num(x)))).items():
                        out[k] = out.get(k, 0) + f * v
