"""C04: the mean-preserving methods reproduce the daily value they start from."""
from .. import humspec, radspec, tempspec
from ..axes import dayconst
from ..daymean import expand, mean, tables
from ..spec import E
from ..suite import HX, Run, comparable, construct, judge, n, on_axis, opaque_reason, param, s, why_unknown
from ..terms import B, Budget, N, NAN, ONE, Rat, TooBig, Unclear, ZERO, cases, clip, cmp, feasible, g, holds, isnull, land, lnot, num, same, showrat


def run(ctx):
    todo = [
        ('disaggregate_wind', "method='equal'", lambda r: ([r.series('X', 'wind', HX.args[1])], {'method': s('equal')}),
         E('X.wind'), None),
        ('distribute_equally', '', lambda r: ([r.series('X', 'v', HX.args[1])], {}), E('X.v'), None),
    ]
    todo.append(('disaggregate_humidity', "method='equal'",
                 lambda r: ([r.frame()], humspec.kwargs(r, 'equal', False)), E('X.hum'), (0, 100)))
    for m, p, kr in humspec.configs():
        if p:
            todo.append(('disaggregate_humidity', 'method=%r, preserve_daily_mean=True, kr=%d' % (m, kr),
                         lambda r, m=m, kr=kr: ([r.frame()], humspec.kwargs(r, m, True, kr)), E('X.hum'), (0, 100)))
    for t in tempspec.TIMING:
        todo.append(('disaggregate_temperature', "method='sine_mean', min_max_time=%r" % t,
                     lambda r, t=t: ([r.frame()], tempspec.kwargs(r, 'sine_mean', t)), E('X.temp'), 'polar'))
    todo.append(('disaggregate_temperature', "method='mean_course_mean'",
                 lambda r: ([r.frame()], tempspec.kwargs(r, 'mean_course_mean')), E('X.temp'), None))
    for m in radspec.METHODS:
        todo.append(('disaggregate_radiation', 'method=%r' % m, lambda r, m=m: ([r.frame()], radspec.kwargs(r, m)),
                     radspec.daily(m), (num('0.01'), None)))
    for f, cfg, mk, day, limits in todo:
        what = construct(ctx.repo, f, cfg)
        r = Run(ctx.repo)
        r.call(f, *mk(r))
        ctx.count('calls analysed')
        res = comparable(ctx, r, what, what)
        if res is not None:
            preserved(ctx, what, res[0], res[1], day, limits)
            if f == 'disaggregate_radiation':
                # set to zero only where the scaled value is below the limit
                v, w, lim = res[1], radspec.raw(cfg.split("'")[1]), num('0.01')
                lost = g(land(cmp('eq', v, ZERO), cmp('ge', w, lim)), ONE, ZERO)
                judge(ctx, 'radiation above the limit set to zero', what + ': flush', what, lost, ZERO, on_axis(res[0]))
                other = g(land(cmp('lt', w, lim), cmp('ne', v, ZERO), cmp('ne', v, w)), ONE, ZERO)
                judge(ctx, 'radiation below the limit not set to zero', what + ': below', what, other, ZERO, on_axis(res[0]))
    ctx.floor('calls analysed', 18)


def preserved(ctx, what, axis, t, day, limits):
    assume = on_axis(axis)
    if limits == 'polar':
        assume.append(lnot(tempspec.POLAR))
    elif limits:
        lo, hi = limits
        # only where nothing is cut off
        assume.append(cmp('gt', t, num(lo) if isinstance(lo, int) else lo))
        if hi is not None:
            assume.append(cmp('lt', t, num(hi)))
    t = tables(t, axis)
    day = tables(day, axis)
    ncase = 0
    pend = None

    def f(st):
        for c in assume:
            if not holds(c, st):
                return None
        m = expand(mean(t, st, axis), st, axis)
        return N(m, st), N(expand(day, st, axis), st), m
    try:
        for st, v in cases(f, None, [20000]):
            if v is None or st.nan:
                continue
            a, b, m = v
            e = same(a, b, st)
            ncase += 1
            if e is True or not feasible(st):
                continue
            if e is None or a is NAN or b is NAN:
                pend = 'case %s' % st.describe()[:200]
                continue
            ctx.violated('daily mean not reproduced', what, 'when %s: mean of the hours is %s instead of %s' % (
                st.describe(), clip(showrat(a)), clip(showrat(b))))
            return
    except (Budget, TooBig):
        pend = 'too many cases'
    except Unclear:
        pend = 'condition not modelled'
    if pend:
        ctx.undecided(what, opaque_reason(t) or pend)
    elif not ncase:
        ctx.undecided(what, 'no case left')
    else:
        ctx.holds(what)
