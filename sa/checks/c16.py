"""C16: cascade statistics are the counts and averages the model defines.

The counting loop of the aggregation becomes one sum per cell of the statistics; the counted condition
is compared with its definition for the first, the last and any other aggregate.  Averaging over levels
is followed with symbolic statistics for every level.
"""
import itertools
from fractions import Fraction

from ..cascspec import FIELDS, STARTING, ENCLOSED, ENDING, ISOLATED, TYPES, cell, classes, places, stats
from ..report import Broken, parallel
from ..axes import mask
from ..suite import M, Run, construct, judge, judge_cond, n, on_axis
from ..terms import (APPFLAGS, NANT, ONE, TRUE, ZERO, T, add, app, cmp, col, decide, div, g, isnull, land, lnot, lor, mul, num, rewrite,
                     sub, subterms, sym, tim)
from ..values import Arr, Frm, Lst, Obj, Ref, S, Ser, Tup, ax, lam_apply, subst

APPFLAGS['amount'] = ('nonan', 'nonneg')
AGG = 'aggregate_precipitation'
BUILD = 'build_casc'
LEN = sym('aggregates', 'int', 'nonan')
THR = sym('threshold', 'nonan')


def amount(k):
    return app('amount', k)


def D(j):
    return add(amount(mul(num(2), j)), amount(add(mul(num(2), j), ONE)))


def typed(j, place):
    """condition for each box type"""
    left = cmp('lt', ZERO, D(sub(j, ONE))) if place != 'first box' else cmp('lt', ZERO, ZERO)
    right = cmp('lt', ZERO, D(add(j, ONE))) if place != 'last box' else cmp('lt', ZERO, ZERO)
    return {STARTING: land(lnot(left), right), ENCLOSED: land(left, right), ENDING: land(left, lnot(right)), ISOLATED: land(lnot(left), lnot(right))}


def counted(kind, above, t, j, place, k=None):
    d = D(j)
    a, bb = amount(mul(num(2), j)), amount(add(mul(num(2), j), ONE))
    c = [cmp('lt', ZERO, d), cmp('lt', THR, d) if above else cmp('le', d, THR), typed(j, place)[t]]
    wet = lambda x: cmp('lt', ZERO, x)
    dry = lambda x: cmp('eq', x, ZERO)
    if kind == 'p01':
        c += [dry(a), wet(bb)]
    elif kind == 'p10':
        c += [wet(a), dry(bb)]
    elif kind in ('pxx', 'both'):
        c += [wet(a), wet(bb)]
    elif kind == 'wxx':
        w = div(a, add(a, bb))
        c += [wet(a), wet(bb), cmp('lt', num(Fraction(k, 7)), w), cmp('le', w, num(Fraction(k + 1, 7)))]
    return g(land(*c), ONE, ZERO)


class Agg(object):
    """terms of one aggregation with amounts, threshold and length given names"""

    def __init__(self, r, thr):
        self.cuts = {c.name: c for c in r.i.loops.cuts}
        self.thr = thr
        self.memo = {}

    def plain(self, t):
        def f(u):
            if u is self.thr:
                return THR
            if u.op == 'app' and u.args[0] in self.cuts:
                return rewrite_(subst(self.cuts[u.args[0]].term, {tim('pos'): rewrite_(u.args[1])}))
            if u.op == 'app' and u.args[0] == 'elem' and u.args[1] is col('Y', 'precip') and u.args[2] is M:
                return amount(rewrite_(u.args[3]))
            if u.op == 'fn' and u.args[0] in ('floor', 'trunc') and u.args[1] in HALF:
                return LEN
            if u.op == 'fn' and u.args[0] == 'floordiv' and u.args[2] is num(2) and div(u.args[1], num(2)) in HALF:
                return LEN
            return None

        def rewrite_(x):
            from ..terms import tdrewrite
            return tdrewrite(x, f)
        return classes(rewrite_(t))

    def count(self, s, kind, above, t, k=None):
        """verdict: the sum s counts the aggregates of that kind"""
        key = (s, kind, above, t, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = v = self._count(*key)
        return v

    def _count(self, s, kind, above, t, k):
        if s.op != 'app' or s.args[0] != 'sum':
            return 'unknown', 'not a count: %s' % str(s)[:200]
        lo, hi, body = s.args[1:4]
        if self.plain(lo) is not ZERO or self.plain(hi) is not LEN:
            return 'unknown', 'counted from %s to %s' % (lo, hi)
        for lab, q, ass in places(LEN):
            got = self.plain(lam_apply(body, q))
            a = amount(mul(num(2), q))
            w = div(a, D(q))
            extra = [cmp('le', ZERO, amount(x)) for x in ()]
            if kind == 'wxx':
                extra += [lor(cmp('eq', a, ZERO), land(cmp('lt', ZERO, w), cmp('le', w, ONE)))]
            v = decide(got, counted(kind, above, t, q, lab, k), assume=list(ass) + extra, limit=20000)
            if v.kind != 'eq':
                return v.kind, '%s: %s' % (lab, v.why)
        return 'eq', ''


HALF = {div(app('len', M), num(2)), mul(num(Fraction(1, 2)), app('len', M))}


def leaves(t):
    if t.op == 'g':
        return leaves(t.args[1]) | leaves(t.args[2])
    return {t}


def ratio(t):
    """(numerator, denominator) of a quotient of two counts"""
    if t.op == 'mul' and len(t.args) == 2:
        for x, y in (t.args, t.args[::-1]):
            if y.op == 'pow' and y.args[1] is num(-1):
                return x, y.args[0]
    return None


def report(ctx, rule, name, what, verdict):
    kind, why = verdict
    if kind == 'eq':
        ctx.holds(name)
    elif kind == 'ne':
        ctx.violated(rule, what, '%s: %s' % (name, why))
    else:
        ctx.undecided(name, why)
    return kind == 'eq'


def aggregate(ctx, pct):
    what = construct(ctx.repo, AGG)
    ctx.count('aggregations')
    r = Run(ctx.repo)
    r.i.facts['cut'] = True
    p = n(pct) if pct is not None else None
    r.script('res, coarse = melodist.%s(data%s)' % (AGG, ', percentile=pc' if p is not None else ''), data=r.closed('Y', M, ('precip',)), pc=p or n(50))
    if r.error or r.dead:
        if r.dead and not r.i.undecided:
            ctx.violated('call always fails', what, r.dead)
        else:
            ctx.undecided(what, r.error or r.dead or '; '.join(r.i.undecided[:3]))
        return
    o, coarse = r.get('res'), r.get('coarse')
    if not isinstance(o, Obj) or not isinstance(coarse, Frm):
        ctx.undecided(what, 'result not resolved')
        return
    # the aggregated series
    t = dict(coarse.cols).get('precip')
    ag = Agg(r, None)
    if t is None:
        ctx.undecided(what, 'aggregated values not resolved')
        return
    size = r.i.pd.axlen(coarse.axis)
    report(ctx, 'sums of consecutive pairs', '%s: number of aggregates' % what, what,
           ('eq', '') if ag.plain(size) is LEN else ('unknown', 'length %s' % size))
    q = sym('q', 'int', 'nonan')
    v = decide(ag.plain(subst(t, {tim('pos'): q})), D(q), limit=2000)
    report(ctx, 'sums of consecutive pairs', '%s: aggregates' % what, what, (v.kind, v.why))
    if r.i.undecided:
        ctx.undecided(what, '; '.join(r.i.undecided[:3]))
        return
    # the threshold
    thr = r.i.deref(o.get('threshold'))
    if not isinstance(thr, Arr) or len(thr.cells) != 1:
        ctx.undecided(what + ': threshold', 'threshold not resolved')
        return
    thr = thr.cells[0]
    report(ctx, 'threshold is the percentile of wet aggregates', what + ': threshold', what, threshold(ag, thr, pct if pct is not None else 50))
    ag = Agg(r, thr)
    want = {}
    base = {}
    for f, shape in FIELDS:
        a = r.i.deref(o.get(f))
        if not isinstance(a, Arr) or tuple(a.shape) != shape:
            ctx.undecided('%s: %s' % (what, f), 'not resolved')
            return
        for idx, c in zip(itertools.product(*map(range, shape)), a.cells):
            ls = [x for x in leaves(c) if x.op != 'num']
            rs = [ratio(x) for x in ls]
            name = '%s: %s[%s]' % (what, f, ', '.join(map(str, idx)))
            ctx.count('cells')
            if len(rs) != 1 or rs[0] is None:
                ctx.undecided(name, 'not a quotient of counts: %s' % str(ls)[:300])
                continue
            num_, den = rs[0]
            above, t = idx[-2:]
            k = idx[0] if f == 'wxx' else None
            kinds = 'both' if f == 'wxx' else 'all'
            ok = report(ctx, 'counted events', name + ': events', '%s %s' % (what, f), ag.count(num_, f, above, t, k))
            ok &= report(ctx, 'counted aggregates', name + ': aggregates', '%s %s' % (what, f), ag.count(den, kinds, above, t))
            if ok:
                want[f, idx] = ls[0]
                base[f, idx] = c
    if len(want) == sum(len(list(itertools.product(*map(range, s_)))) for f, s_ in FIELDS):
        replacement(ctx, want, base, what)


def threshold(ag, thr, pct):
    if thr.op != 'app' or thr.args[0] != 'percentile':
        return 'unknown', 'threshold is %s' % str(thr)[:200]
    axis, val, p = thr.args[1:4]
    if len(thr.args) > 4:
        return 'ne', 'other percentile definition: %s' % (thr.args[4:],)
    if p is not num(pct):
        return ('ne' if p.op == 'num' else 'unknown'), 'percentile %s instead of %s' % (p, pct)
    q = sym('q', 'int', 'nonan')
    if axis.args[0] != 'filter':
        return ('ne', 'not restricted to wet aggregates') if axis.args[0] == 'range' else ('unknown', str(axis))
    v = decide(g(ag.plain(subst(axis.args[2], {tim('pos'): q})), ONE, ZERO), g(cmp('lt', ZERO, D(q)), ONE, ZERO), limit=2000)
    if v.kind != 'eq':
        return v.kind, v.why
    v = decide(ag.plain(subst(val, {tim('pos'): q})), D(q), limit=2000)
    return v.kind, v.why


def replacement(ctx, want, cells, what):
    """which values are replaced when probabilities are undefined"""
    probs = [k for k in want if k[0] != 'wxx']
    classes_ = sorted({k[1] for k in probs})

    def values(nb0, nx0):
        m = {}
        for (f, idx), t in want.items():
            gone = idx in nb0 if f != 'wxx' else idx[1:] in nx0 or idx[1:] in nb0
            m[t] = NANT if gone else sym('%s%s' % (f, list(idx)), 'nonan', 'unit')
        out = {}
        memo = {}
        for k, c in cells.items():
            out[k] = subst(c, m)
        return m, out

    def case(label, nb0, nx0, expect):
        m, out = values(nb0, nx0)
        # the shares of the seven classes add up to one
        ones = []
        for above, t in classes_:
            if (above, t) not in nb0 and (above, t) not in nx0:
                ones.append(cmp('eq', add(*[m[want['wxx', (k, above, t)]] for k in range(7)]), ONE))
        bad = None
        for k in out:
            e = expect(k, m)
            if e is None:
                continue
            v = decide(out[k], e, assume=ones if opened(out[k]) else [], limit=2000)
            if v.kind != 'eq':
                bad = (v.kind, '%s%s: %s' % (k[0], list(k[1]), v.why))
                break
        report(ctx, 'replacement of undefined probabilities', '%s: %s' % (what, label), what, bad or ('eq', ''))
        ctx.count('cases of undefined probabilities')

    case('all defined', set(), set(), lambda k, m: m[want[k]])
    for c in classes_:
        case('no wet pair in class %s' % (c,), set(), {c}, lambda k, m: num(Fraction(1, 7)) if k[0] == 'wxx' and k[1][1:] == c else m[want[k]])
    # sample values: every cell is a constant
    for c in classes_:
        m, out = values({c}, set())
        left = [k for k, t in out.items() if k[0] != 'wxx' and simple(t) is None]
        bad = ('ne' if all(not opened(out[k]) for k in left) else 'unknown', '%s is not replaced' % (left[:3],)) if left else ('eq', '')
        report(ctx, 'replacement of undefined probabilities', '%s: empty class %s' % (what, c), what, bad)
        ctx.count('cases of undefined probabilities')


def simple(t):
    return t if t.op == 'num' else None


def opened(t):
    return t.op == 'g'


def build(ctx, hourly, levels, averaged, months):
    cfg = '%s, %s' % ('hourly' if hourly else '%d levels' % levels, 'averaged' if averaged else 'level-specific')
    if months is None:
        cfg += ', default season'
    what = construct(ctx.repo, BUILD, cfg)
    ctx.count('calibrations')
    r = Run(ctx.repo)
    seen = []

    def agg(i, f, args, kwargs):
        env = i.bind_args(f, args, kwargs)
        k = len(seen) + 1
        names = [a.arg for a in f.node.args.args]
        seen.append((i.deref(env[names[0]]), env))
        v = stats(r, 'L%d.' % k, 1)
        fr = i.alloc(Frm(ax('in', 'V%d' % k, 'H'), (('precip', col('V%d' % k, 'precip')),), origin='V%d' % k))
        return Tup([i.st.frames['mod:client'][v], fr])
    r.find(AGG)
    r.i.overrides[AGG] = agg
    kw = 'percentile=60, avg_stats=%r' % averaged
    if not hourly:
        kw += ', hourly=False, level=%d' % levels
    if months is not None:
        kw += ', months=%r' % (months,)
    r.script('res = melodist.%s(data, %s)' % (BUILD, kw), data=r.closed('Y', M, ('precip',)))
    groups = months or [list(range(1, 13))]
    if r.error or r.dead or r.i.undecided:
        if r.dead and not r.i.undecided:
            ctx.violated('call always fails', what, r.dead)
        else:
            ctx.undecided(what, r.error or r.dead or '; '.join(r.i.undecided[:3]))
        return
    res = r.get('res')
    if not isinstance(res, Lst) or not seen:
        ctx.undecided(what, 'result not resolved')
        return
    if len(res.items) != len(groups):
        ctx.violated('one set of statistics per season', what, '%d for %d seasons' % (len(res.items), len(groups)))
        return
    if len(seen) != levels * len(groups):
        ctx.violated('one aggregation per level', what, '%d aggregations for %d seasons with %d levels' % (len(seen), len(groups), levels))
        return
    y = col('Y', 'precip')
    for s_, gr in enumerate(groups):
        lab = '%s: season %d' % (what, s_)
        part = seen[s_ * levels:(s_ + 1) * levels]
        cond = lor(*[cmp('eq', tim('month'), num(k)) for k in gr]) if len(gr) < 12 else TRUE
        d = part[0][0]
        if not isinstance(d, Frm) or 'precip' not in dict(d.cols):
            ctx.undecided(lab, 'data of the first level not resolved')
            return
        judge_cond(ctx, 'season covers its months', lab + ': months', what, mask(d.axis), land(cond, mask(M)), [cmp('le', ONE, tim('month')), cmp('le', tim('month'), num(12))])
        judge(ctx, 'season uses the given data', lab + ': data', what, dict(d.cols)['precip'], g(isnull(y), ZERO, y), on_axis(d.axis))
        for k, (d, env) in enumerate(part):
            no = s_ * levels + k + 1
            if k:
                c = dict(d.cols).get('precip') if isinstance(d, Frm) else None
                if c is None:
                    ctx.undecided('%s: data of level %d' % (lab, k + 1), 'not resolved')
                else:
                    judge(ctx, 'levels are aggregated one from the other', '%s: data of level %d' % (lab, k + 1), what, c, col('V%d' % (no - 1), 'precip'))
            pc = env.get('percentile')
            judge(ctx, 'threshold is the given percentile', '%s: percentile of level %d' % (lab, k + 1), what, pc.t if isinstance(pc, S) else NANT, num(60))
        v = r.i.deref(res.items[s_])
        first = s_ * levels + 1
        size = [app('len', ax('in', 'V%d' % (first + k), 'H')) for k in range(levels)]
        if averaged:
            if not isinstance(v, Obj):
                ctx.violated('averaged statistics', what, 'result is a %s' % type(v).__name__) if isinstance(v, (Lst, Tup)) else ctx.undecided(lab, 'not resolved')
                return
            for f, shape in FIELDS:
                a = r.i.deref(v.get(f))
                if not isinstance(a, Arr) or tuple(a.shape) != shape:
                    ctx.undecided('%s: %s' % (lab, f), 'not resolved')
                    continue
                for idx, c in zip(itertools.product(*map(range, shape)), a.cells):
                    want = div(add(*[mul(size[k], cell('L%d.%s' % (first + k, f), *idx)) for k in range(levels)]), add(*size))
                    judge(ctx, 'average weighted by the number of aggregates', '%s: %s%s' % (lab, f, list(idx)), '%s %s' % (what, f), c, want,
                          [cmp('lt', ZERO, x) for x in size])
            t = r.i.deref(v.get('threshold'))
            limits(ctx, t, [cell('L%d.thr' % (first + k), 0) for k in range(levels)], lab, what)
        else:
            if not isinstance(v, Lst):
                ctx.violated('level-specific statistics', what, 'result is a %s' % type(v).__name__) if isinstance(v, Obj) else ctx.undecided(lab, 'not resolved')
                return
            if len(v.items) != levels:
                ctx.violated('level-specific statistics', what, '%d sets for %d levels' % (len(v.items), levels))
                return
            for k, x in enumerate(v.items):
                o = r.i.deref(x)
                if not isinstance(o, Obj):
                    ctx.undecided('%s: level %d' % (lab, k + 1), 'not resolved')
                    continue
                for f, shape in FIELDS:
                    a = r.i.deref(o.get(f))
                    if not isinstance(a, Arr) or tuple(a.shape) != shape:
                        ctx.undecided('%s: level %d %s' % (lab, k + 1, f), 'not resolved')
                        continue
                    for idx, c in zip(itertools.product(*map(range, shape)), a.cells):
                        judge(ctx, 'statistics of a level are kept', '%s: level %d %s%s' % (lab, k + 1, f, list(idx)), '%s %s' % (what, f), c,
                              cell('L%d.%s' % (first + k, f), *idx))
                limits(ctx, r.i.deref(o.get('threshold')), [cell('L%d.thr' % (first + k), 0)], '%s: level %d' % (lab, k + 1), what)


def limits(ctx, t, want, lab, what):
    if not isinstance(t, Arr):
        ctx.undecided(lab + ': thresholds', 'not resolved')
        return
    if len(t.cells) != len(want):
        ctx.violated('one threshold per level', what, '%d thresholds for %d levels' % (len(t.cells), len(want)))
        return
    for k, (c, w) in enumerate(zip(t.cells, want)):
        judge(ctx, 'one threshold per level', '%s: threshold %d' % (lab, k), what, c, w)


def job(ctx, kind, *args):
    {'aggregate': aggregate, 'build': build}[kind](ctx, *args)


SEASONS = [[12, 1, 2], [3, 4, 5, 6], [7, 8, 9, 10, 11]]


def run(ctx):
    jobs = [('aggregate', None), ('aggregate', 60)]
    for averaged in (True, False):
        jobs += [('build', True, 5, averaged, SEASONS), ('build', True, 5, averaged, None)]
        jobs += [('build', False, k, averaged, None) for k in (9, 10, 11)]
    parallel(ctx, job, jobs)
    ctx.floor('aggregations', 2)
    ctx.floor('calibrations', 10)
