"""C22: hourly and finer results lie on exactly the time steps of the input days."""
from fractions import Fraction

from .. import calls
from ..axes import sameaxis
from ..suite import HX, Run, X, axis_opaque, b, check_axis, comparable, construct, n, none, param, why_unknown
from ..terms import num, show
from ..values import Alt, Frm, Idx, Ref, Ser, ax

RULE = 'result does not cover the time steps of the input days'


def run(ctx):
    grids = [('hourly_index', '', {}, ax('hourly', X)),
             ('hourly_index', 'fill_gaps=True', {'fill_gaps': b(True)}, ax('hourly', ax('span', X))),
             ('fmin_index', '', {}, ax('grid', X, num(300))),
             ('fmin_index', 'fill_gaps=True', {'fill_gaps': b(True)}, ax('grid', ax('span', X), num(300)))]
    for level in (9, 10, 11):
        step = num(Fraction(86400, 2 ** level))
        grids.append(('sub_level_index', 'level=%d' % level, {'level': n(level)}, ax('grid', X, step)))
        grids.append(('sub_level_index', 'level=%d, fill_gaps=True' % level, {'level': n(level), 'fill_gaps': b(True)},
                      ax('grid', ax('span', X), step)))
    for f, cfg, kw, want in grids:
        r = Run(ctx.repo)
        home = {'hourly_index': 'melodist.util.util'}.get(f, 'melodist.precipitation')
        what = '%s %s(%s)' % (home.replace('.', '/') + '.py', f, cfg)
        fn = r.i.function(home, f)
        if fn is None:
            ctx.undecided(what, 'function not found')
            continue
        r.call(fn, [r.index(X)], kw)
        ctx.count('time grids')
        axis(ctx, r, what, want)
    for f, cfg, make, need, near in calls.disaggregations():
        r = Run(ctx.repo)
        what = construct(ctx.repo, f, cfg)
        r.call(f, *make(r))
        ctx.count('disaggregation calls')
        axis(ctx, r, what, HX)
    for freq in (False, True):
        r = Run(ctx.repo)
        r.i.facts.update(freq='D' if freq else None, resolution=True, increasing=True)
        day = ax('span', X)
        env = dict(lon=param('lon'), lat=param('lat'), tz=param('tz'), daily=r.closed(axis=day if freq else X))
        for order, text in (('with location', 'st = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=daily)'),
                            ('without location', 'st = melodist.Station(data_daily=daily)'),
                            ('assigned later', 'st = melodist.Station(lon=lon, lat=lat, timezone=tz)\nst.data_daily = daily')):
            what = 'melodist/station.py Station (%s, %s)' % (order, 'complete calendar' if freq else 'calendar with gaps')
            r.script(text + '\nout = st.data_disagg', **env)
            r.value = r.i.st.frames.get('mod:client', {}).get('out')
            ctx.count('station frames')
            axis(ctx, r, what, ax('hourly', day))
    ctx.floor('time grids', 10)
    ctx.floor('disaggregation calls', 39)
    ctx.floor('station frames', 6)


def axis(ctx, r, what, want):
    if r.error:
        return ctx.undecided(what, r.error)
    if r.dead:
        if r.i.undecided:
            return ctx.undecided(what, '%s (%s)' % (r.dead, r.i.undecided[0]))
        return ctx.violated('call always fails', what, r.dead)
    o = r.obj()
    if isinstance(o, Alt):
        alts = [r.i.deref(v) if isinstance(v, Ref) else v for v in flat(o)]
        axes = [a.axis if isinstance(a, (Ser, Frm, Idx)) else None for a in alts]
        if all(a is not None and not axis_opaque(a) and not sameaxis(a, want) for a in axes):
            return ctx.violated(RULE, what, 'result lies on %s instead of %s' % (' or '.join(show(a) for a in axes), show(want)))
    if not isinstance(o, (Ser, Frm, Idx)):
        return ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(o).__name__)
    check_axis(ctx, RULE, what, what, o.axis, want, r)


def flat(v):
    return flat(v.a) + flat(v.b) if isinstance(v, Alt) else [v]
