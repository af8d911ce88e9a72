"""C02: radiation is never negative, and disaggregated values are zero or at least 0.01."""
from .. import radspec
from ..bounds import lower
from ..spec import E
from ..suite import HX, Frm, Run, b, comparable, construct, judge, on_axis, opaque_reason, param, why_unknown
from ..terms import ONE, ZERO, cmp, decide, g, land, num
from .c18 import potential, subst, P


def run(ctx):
    for m in radspec.METHODS:
        cfg = 'method=%r' % m
        what = construct(ctx.repo, 'disaggregate_radiation', cfg)
        r = Run(ctx.repo)
        r.call('disaggregate_radiation', [r.frame()], radspec.kwargs(r, m))
        ctx.count('calls analysed')
        res = comparable(ctx, r, cfg, what)
        if res is None:
            continue
        axis, t = res
        bad = g(land(cmp('lt', t, num('0.01')), cmp('ne', t, ZERO)), ONE, ZERO)
        judge(ctx, 'radiation negative or below the flush limit', 'bounds ' + cfg, what, bad, ZERO, on_axis(axis))
    cf = param('cf', 'unit')
    for flat in (False, True):
        r = Run(ctx.repo)
        args = [r.index(HX), param('lon'), param('lat'), param('tz')]
        if not flat:
            args += [param('slope'), param('azi'), cf]
        r.call('potential_radiation', args, {'split': b(True)})
        ctx.count('calls analysed')
        what = construct(ctx.repo, 'potential_radiation', 'flat' if flat else 'inclined, cloudy')
        o = r.obj()
        ctx.count('radiation parts bounded', 2)
        if r.error or not isinstance(o, Frm) or o.open:
            ctx.undecided(what, why_unknown(r) or r.dead or 'not a frame')
            continue
        spec = dict(zip(('direct', 'diffuse'), potential(E('hour'))))
        m = {P('slope'): ZERO, P('azi'): ZERO, P('cf'): ZERO} if flat else {P('cf'): cf.t}
        for c, t in o.cols:
            name = '%s %s' % (what, c)
            lo, case = lower(t, on_axis(o.axis))
            if lo is not None and lo != 'unknown' and lo >= 0:
                ctx.holds(name)
                continue
            why = opaque_reason(t)
            if lo == 'unknown' or why or c not in spec:
                ctx.undecided(name, why or case)
                continue
            # no bound found: is it still the published, non-negative expression?
            v = decide(t, subst(spec[c], m), assume=on_axis(o.axis))
            if v.kind == 'ne':
                ctx.violated('potential radiation can be negative', name, 'no lower bound of 0 when %s; %s' % (case[:600], v.why))
            else:
                ctx.undecided(name, 'no lower bound of 0 found when %s' % case[:300])
    ctx.floor('calls analysed', 6)
    ctx.floor('radiation parts bounded', 4)
