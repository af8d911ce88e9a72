"""C03: disaggregated precipitation adds up to the daily totals.

Cascade: every refinement hands on what it gets (both halves together, no part negative), and the
values of a day are, after writing out running sums and bins, the values of the last refinement of
that day, each counted once.  Equal distribution and master station: the value of an hour is compared
with the share whose sum over the day is one.
"""
from fractions import Fraction

from ..cascspec import CONFIGS, Sum, Unknown, disaggregate, label, levels_of, places, raw
from ..report import parallel
from ..suite import HX, M, X, Run, check_axis, comparable, construct, judge, s
from ..terms import FALSE, ONE, ZERO, add, app, cmp, col, decide, div, g, isnull, lnot, mul, num, rewrite, sym, tim
from ..values import Ser, ax, subst

NAME = 'disagg_prec_cascade'
SUM = 'values of a day add up to its total'


def outcome(ctx, rule, name, what, v):
    if v.kind == 'eq':
        ctx.holds(name)
    elif v.kind == 'ne':
        ctx.violated(rule, what, v.why)
    else:
        ctx.undecided(name, v.why)


def refinement(lv):
    for lab, q, ass in places(lv.boxes):
        v = lv.V(q)
        ass = list(ass) + ([lnot(isnull(raw(q)))] if lv.first else [])
        a, b = lv.half(q, 0), lv.half(q, 1)
        yield 'both parts of a box add up to the box', lab, decide(add(a, b), v, assume=ass + [cmp('le', ZERO, v)], limit=20000)
        for half, t in (('first', a), ('second', b)):
            yield ('no part is negative', '%s, %s part' % (lab, half),
                   decide(g(cmp('lt', t, ZERO), ONE, ZERO), ZERO, assume=ass + [cmp('le', ZERO, v)], limit=20000))


def valid(t):
    """the value on a day whose total is not missing"""
    n = isnull(col('X', 'precip'))

    def f(u):
        if u is n:
            return FALSE
        if u.op == 'cmp' and u.args[0] == 'eq' and u.args[1] is u.args[2] and u.args[1].op == 'tim':
            from ..terms import TRUE
            return TRUE
        return None
    return rewrite(t, f)


def at(t, p, **when):
    m = {app('posn', X): p}
    for k, v in when.items():
        m[tim(k)] = num(v)
    return subst(t, m)


def text(d, want):
    out = []
    for k in sorted(set(d) | set(want), key=str):
        if d.get(k, 0) != want.get(k, 0):
            out.append('box %s of the day is counted %s times instead of %s' % (k[2] if k else k, d.get(k, 0), want.get(k, 0)))
    return '; '.join(out[:4])


def hourly_total(ctx, r, res, lvs, levels, what):
    name = what + ': day sum'
    cuts = {c.name: c for c in r.i.loops.cuts}
    last = lvs[-1].cut.name
    atoms = {lv.cut.name for lv in lvs}
    t = valid(res.t)
    for least in (0, 1):
        p = num(0) if least == 0 else sym('p', 'int', 'nonan')
        S = Sum(cuts, atoms, least, p)
        try:
            parts = [S.total([S.value(at(t, p, hour=h, minute=0, second=0))]) for h in range(24)]
            S2 = [S.value(at(t, p, hour=h, minute=0, second=0)) for h in range(24)]
            tot = S.total(S2)
        except Unknown as e:
            ctx.undecided(name, str(e))
            return
        want = {}
        for k in range(2 ** levels):
            want[(last, Fraction(2 ** levels) if least else Fraction(0), Fraction(k))] = Fraction(1)
        if tot != want:
            ctx.violated(SUM, what, text(tot, want))
            return
        if any(v < 0 for d in parts for v in d.values()):
            ctx.violated('no amount is negative', what, 'an hour contains a negative share')
            return
        if any(k is None for d in parts for k in d):
            ctx.violated(SUM, what, 'an hour contains an amount that belongs to no day')
            return
    ctx.holds(name)


def fine_total(ctx, r, res, lvs, levels, what):
    """bins of equal length inside the day collect every value of the last refinement once"""
    name = what + ': day sum'
    t = valid(res.t)
    last = lvs[-1].cut.name
    if t.op != 'app' or t.args[0] != 'binagg':
        ctx.undecided(name, 'result is %s' % str(t)[:200])
        return
    how, width, axis, inner = t.args[1:5]
    width = Fraction(str(width)) if not hasattr(width, 'args') else width.args[0]
    if how != 'sum':
        ctx.violated(SUM, what, 'values of the refinement are combined by %s' % how)
        return
    if axis.args[0] != 'grid' or axis.args[1] is not X:
        ctx.undecided(name, 'refined values on %s' % axis)
        return
    step = Fraction(str(axis.args[2])) if not hasattr(axis.args[2], 'args') else axis.args[2].args[0]
    if Fraction(86400) / step != 2 ** levels:
        ctx.violated(SUM, what, '%s values per day for %d values of the last refinement' % (Fraction(86400) / step, 2 ** levels))
        return
    if (Fraction(86400) / width).denominator != 1:
        ctx.violated('no value belongs to another day', what, 'bins of %s seconds cross the end of the day' % width)
        return
    p = sym('p', 'int', 'nonan')
    S = Sum({c.name: c for c in r.i.loops.cuts}, {lv.cut.name for lv in lvs}, 0, p)
    n = 2 ** levels
    try:
        got = {}
        for k in range(n):
            sec = step * k
            h, m = int(sec // 3600), int(sec % 3600 // 60)
            for a, v in S.value(at(inner, p, hour=h, minute=m, second=sec - 3600 * h - 60 * m)).items():
                got[a] = got.get(a, 0) + v
    except Unknown as e:
        ctx.undecided(name, str(e))
        return
    want = {(last, Fraction(n), Fraction(k)): Fraction(1) for k in range(n)}
    if got != want:
        ctx.violated(SUM, what, text(got, want))
        return
    ctx.holds(name)


def cascade(ctx, levels, hourly, averaged):
    cfg = label(levels, hourly, averaged)
    r = disaggregate(ctx.repo, levels, hourly, averaged)
    what = construct(ctx.repo, NAME, cfg)
    ctx.count('configurations')
    lvs, why = levels_of(r, levels, averaged, exact=True)
    if lvs is None:
        if r.dead and not r.i.undecided:
            ctx.violated('call always fails', what, r.dead)
        else:
            ctx.undecided(what, why)
        return
    seen = {}
    for lv in lvs:
        ctx.count('refinements')
        where = construct(ctx.repo, NAME, '%s; refinement %d' % (cfg, lv.no))
        if lv.shape not in seen:
            seen[lv.shape] = list(refinement(lv))
        for rule, lab, v in seen[lv.shape]:
            outcome(ctx, rule, '%s: %s, %s' % (where, rule, lab), where, v)
    res = r.get('res')
    if not isinstance(res, Ser):
        ctx.undecided(what, 'result is %s' % type(res).__name__)
        return
    want = HX if hourly else ax('grid', X, 300)
    if str(res.axis) != str(want):
        check_axis(ctx, 'values at the steps of the days with totals', what + ': time stamps', what, res.axis, want, r)
        return
    ctx.holds(what + ': time stamps')
    (hourly_total if hourly else fine_total)(ctx, r, res, lvs, levels, what)


def equal(ctx):
    r = Run(ctx.repo)
    r.call('disagg_prec', [r.frame()], dict(method=s('equal')))
    hours(ctx, r, 'disagg_prec', 'equal distribution', mul(num(Fraction(1, 24)), col('X', 'precip')))


def master(ctx, axis, entry):
    r = Run(ctx.repo)
    m = r.series('M', 'precip', axis)
    x = r.series('X', 'precip', X)
    if entry == 'disagg_prec':
        r.call(entry, [x], dict(method=s('masterstation'), hourly_data_obs=m, zerodiv=s('uniform')))
    else:
        r.call(entry, [x, m, s('uniform')])
    d = app('dagg', 'sum', axis, col('M', 'precip'))
    p = col('X', 'precip')
    want = g(cmp('eq', d, ZERO), mul(num(Fraction(1, 24)), p), div(mul(p, col('M', 'precip')), d))
    hours(ctx, r, entry, 'master station, %s' % ('hours of the days with totals' if axis is HX else 'longer record'), want, [cmp('le', ZERO, p)])


def hours(ctx, r, entry, cfg, want, assume=()):
    ctx.count('configurations')
    what = construct(ctx.repo, entry, cfg)
    res = comparable(ctx, r, what, what)
    if res is None:
        return
    axis, t = res
    if check_axis(ctx, 'values at the steps of the days with totals', what + ': time stamps', what, axis, HX, r) is False:
        return
    judge(ctx, SUM, what + ': share of an hour', what, t, want, list(assume), run=r)


def job(ctx, kind, *args):
    {'cascade': cascade, 'equal': equal, 'master': master}[kind](ctx, *args)


def run(ctx):
    parallel(ctx, job, [('cascade',) + c for c in CONFIGS] + [('equal',), ('master', HX, 'precip_master_station'), ('master', M, 'precip_master_station'),
                                                             ('master', M, 'disagg_prec')])
    ctx.floor('configurations', 12)
