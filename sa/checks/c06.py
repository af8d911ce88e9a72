"""C06: missing days stay missing and do not disturb other days."""
from .. import calls, tempspec
from ..spec import E
from ..suite import HX, Run, check_axis, comparable, construct, judge, on_axis, opaque_reason
from ..terms import FALSE, NANT, col, isnull, lnot, rewrite, show, subterms

INVENT = 'values appear on a day whose daily values are missing'
DISTURB = 'result of a day depends on the daily values of other days'
AXIS = 'days absent from the input appear in the result'

# applications that stay within the day
WITHIN = ('dagg', 'lookup', 'rand', 'hourin')


def run(ctx):
    ctx.assumptions += ['the sun rises before noon', 'daylight of 3 hours or more on every day or on no day']
    for f, cfg, make, need, near in calls.disaggregations():
        r = Run(ctx.repo)
        what = construct(ctx.repo, f, cfg)
        args, kw = make(r)
        r.call(f, args, kw)
        ctx.count('disaggregation calls')
        together = f == 'disaggregate_temperature' and any(m in cfg for m in ("'sine_min_max'", "'sine'"))
        groups = [g for g in ([need] if together else [(c,) for c in need]) if g]
        ctx.count('missing daily values', len(groups))
        res = comparable(ctx, r, what, what)
        if res is None:
            continue
        axis, t = res
        check_axis(ctx, AXIS, what + ': days', what, axis, HX, r)
        on = on_axis(axis)
        if "'sine" in cfg:
            on += [lnot(tempspec.POLAR), E('round(S.sunrise) <= round(S.sunnoon)')]
            t = rewrite(t, lambda u: FALSE if u is tempspec.POLAR else u)
        if 'via_ssd' in cfg:
            on.append(E('S.daylength > 0'))
        for cols in groups:
            judge(ctx, INVENT, '%s: %s missing' % (what, '+'.join(cols)), what, t, NANT, on + [isnull(col('X', c)) for c in cols])
        if f == 'disaggregate_humidity' and 'temp' in kw:
            judge(ctx, INVENT, '%s: temperature missing' % what, what, t, NANT, on + [isnull(E('T.temp'))])
        others(ctx, what, t, near, 'via_bc' in cfg)
    for m, t, nt in tempspec.configs():
        if m in tempspec.SINE + ('sine_mean',):
            polar(ctx, m, t, nt)
    ctx.floor('disaggregation calls', 43)
    ctx.floor('polar nights', 15)
    ctx.floor('missing daily values', 57)


def polar(ctx, m, t, nt):
    """days without daylight, where temperature is interpolated"""
    what = construct(ctx.repo, 'disaggregate_temperature', 'method=%r, min_max_time=%r, mod_nighttime=%r, polar night' % (m, t, nt))
    groups = [('tmin',), ('tmax',), ('temp',)] if m == 'sine_mean' else [('tmin', 'tmax')]
    ctx.count('polar nights', len(groups))
    r = Run(ctx.repo)
    r.call('disaggregate_temperature', [r.frame()], tempspec.kwargs(r, m, t, nt, '0'))
    res = comparable(ctx, r, what, what)
    if res is None:
        return
    for cols in groups:
        judge(ctx, INVENT, '%s: %s missing' % (what, '+'.join(cols)), what, tempspec.nonempty(res[1]), NANT, on_axis(res[0]) + [isnull(col('X', c)) for c in cols])


def others(ctx, what, t, near, bc):
    name = what + ': other days'
    ok = {col('X', c, o, tag) for c, o, tag in near}
    bad = []
    for u in subterms(t):
        if u.op == 'col' and u.args[0] == 'X' and u.args[2] and u not in ok:
            bad.append(show(u))
        if u.op == 'app' and u.args[0] not in WITHIN:
            if bc and u.args[0] == 'gagg' and u.args[1] == 'mean':
                continue
            if any(v.op == 'col' and v.args[0] == 'X' for v in subterms(u)):
                bad.append(show(u))
    if bad:
        ctx.violated(DISTURB, what, 'uses ' + '; '.join(sorted(set(bad))[:4])[:800])
    elif opaque_reason(t):
        ctx.undecided(name, opaque_reason(t))
    else:
        ctx.holds(name)
