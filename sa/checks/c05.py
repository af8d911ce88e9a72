"""C05: the temperature curves of the min/max methods."""
from .. import tempspec
from ..spec import E
from ..suite import Run, X, comparable, construct, judge, on_axis, opaque_reason
from ..terms import NONE, app, cmp, g, lnot, lor, num, string, subterms, tim


def run(ctx):
    for m, t, nt in tempspec.configs():
        if m in ('sine_mean', 'mean_course_mean'):
            continue
        cfg = 'method=%r, min_max_time=%r, mod_nighttime=%r' % (m, t, nt)
        what = construct(ctx.repo, 'disaggregate_temperature', cfg)
        r = Run(ctx.repo)
        r.call('disaggregate_temperature', [r.frame()], tempspec.kwargs(r, m, t, nt))
        ctx.count('calls analysed')
        res = comparable(ctx, r, cfg, what)
        if res is None:
            continue
        judge(ctx, 'temperature curve differs from its definition', cfg, what, res[1], tempspec.expected(m, t, nt),
              on_axis(res[0]) + [lnot(tempspec.POLAR)])
    for m, t, nt in tempspec.configs():
        if m in tempspec.SINE:
            for length in ('0', '2.9', '3'):
                polar(ctx, m, t, nt, length)
    ctx.floor('calls analysed', 13)
    ctx.floor('polar nights', 20)


def polar(ctx, m, t, nt, length):
    """every day of the data has the same length"""
    cfg = 'method=%r, min_max_time=%r, mod_nighttime=%r, days of %s h' % (m, t, nt, length)
    what = construct(ctx.repo, 'disaggregate_temperature', cfg)
    r = Run(ctx.repo)
    r.call('disaggregate_temperature', [r.frame()], tempspec.kwargs(r, m, t, nt, length))
    ctx.count('polar nights')
    res = comparable(ctx, r, cfg, what)
    if res is None:
        return
    got = tempspec.filled(res[1])
    if length == '3':
        judge(ctx, 'temperature curve differs from its definition', cfg, what, got, tempspec.expected(m, t, nt), on_axis(res[0]))
        return
    first = app('isfirst', X, 0)
    before = E('(n + x) / 2', n=g(first, E('X.tmin'), E('X.tmin[-1]')), x=g(first, E('X.tmax'), E('X.tmax[-1]')))
    now = E('(X.tmin + X.tmax) / 2')
    warmer = cmp('le', before, now)
    want = g(cmp('eq', tim('hour'), num(6)), g(warmer, E('X.tmin'), E('X.tmax')),
             g(cmp('eq', tim('hour'), num(18)), g(warmer, E('X.tmax'), E('X.tmin')), E('nan')))
    assume = on_axis(res[0]) + [lor(cmp('lt', before, now), cmp('gt', before, now))]
    rule = 'extremes of a polar night placed wrongly'
    if got.op == 'app' and got.args[0] == 'interp':
        if got.args[1] is not res[0]:
            ctx.undecided(cfg, 'interpolated on another axis')
            return
        opts = dict((k.args[0], k.args[1]) for k in got.args[3:])
        limit, method = opts.pop('limit', NONE), opts.pop('method', string('linear'))
        if opts or method.op != 'str' or limit is not NONE and limit.op != 'num':
            ctx.undecided(cfg, 'interpolation with other options')
            return
        if method.args[0] not in ('linear', 'time') or limit is not NONE and limit.args[0] < 23:
            ctx.violated('other interpolation in the polar night', what, str(got.args[3:]))
            return
        judge(ctx, rule, cfg, what, got.args[2], want, assume)
    elif r.i.undecided or opaque_reason(got) or any(u.op == 'app' and u.args[0] == 'interp' for u in subterms(got)):
        ctx.undecided(cfg, 'interpolation not recognised')
    else:
        judge(ctx, rule, cfg, what, got, want, assume + [lor(cmp('eq', tim('hour'), num(6)), cmp('eq', tim('hour'), num(18)))])
