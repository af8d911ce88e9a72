"""C23: a station accepts only plausible daily data and completes their calendar."""
from ..agree import compare
from ..interp import AltH
from ..station import HOURLY
from ..suite import Run, S, X, check_axis, judge, judge_cond, n, none, on_axis, param, s, why_unknown
from ..terms import FALSE, NANT, TRUE, app, boolean, col, g, lnot, num, tim, ONE, ZERO
from ..values import Alt, Arr, Dct, Frm, Lst, Ser, ax

Y = ax('in', 'Y', 'D')
O = ax('in', 'O', 'H')
O2 = ax('in', 'MS', 'H')
COLS = ('tmean', 'temp', 'tmin', 'tmax', 'precip', 'glob', 'ssd', 'hum', 'wind')
KELVIN = ('tmin', 'tmax', 'tmean')

TRY = '''
try:
    %s = new
    passed = True
except Exception:
    passed = False
now_daily, now_hourly, now_sun = %s
'''


def keyed(r):
    return r.i.alloc(Frm(ax('keys', 'param', 'q'), (('wind', app('lookup', 'q', tim('key0'))),)))


def run(ctx):
    daily(ctx)
    statistics(ctx)
    ctx.floor('assignments', 20)


def attempt(ctx, r, target, reads, new, facts, what):
    """the assignment inside try; None unless the outcome is known"""
    ctx.count('assignments')
    r.i.facts.update(facts)
    r.script(TRY % (target, reads), new=new)
    if r.error or r.dead:
        ctx.undecided(what, r.error or '%s %s' % (r.dead, why_unknown(r)))
        return None
    p = r.get('passed')
    if not isinstance(p, S):
        ctx.undecided(what, why_unknown(r) or 'outcome not resolved')
        return None
    return p.t


# what must not be accepted: (what, value, facts about its index)
REFUSED = [
    ('nothing', lambda r: none(), {}),
    ('a number', lambda r: n(280), {}),
    ('a string', lambda r: s('file'), {}),
    ('a series', lambda r: r.series('Y', 'wind', Y), {}),
    ('a list', lambda r: r.i.alloc(Lst((n(1), n(2)))), {}),
    ('a dictionary', lambda r: r.i.alloc(Dct((('wind', n(1)),))), {}),
    ('an array', lambda r: r.i.alloc(Arr((2,), (num(1), num(2)))), {}),
    ('a frame without dates', keyed, {}),
]


def daily(ctx):
    for freq in ('D', None):
        for name, make, facts in REFUSED + [
                ('hourly data', lambda r: r.closed('O', O, ('wind',)), {}),
                ('data by minute', lambda r: r.closed('Y', Y, ('wind',)), dict(resolution='minute')),
                ('data labelled with periods', lambda r: r.closed('Y', Y, ('wind',)), dict(period=True)),
                ('monthly labels', lambda r: r.closed('Y', Y, ('wind',)), dict(resolution='month')),
                ('unordered data', lambda r: r.closed('Y', Y, ('wind',)), dict(increasing=False))]:
            what = 'melodist/station.py Station.data_daily assigned %s%s' % (name, '' if freq else ', no frequency')
            r, old = owner(ctx)
            p = attempt(ctx, r, 'st.data_daily', 'st.data_daily, st.data_disagg, st.sun_times', make(r), dict(facts, freq=freq), what)
            refused(ctx, r, what, p, old)
    # temperatures
    for freq in ('D', None):
        for cols in (('tmin', 'wind'), ('tmax',), ('tmean', 'hum'), ('tmin', 'tmax'), COLS):
            what = 'melodist/station.py Station.data_daily assigned %s%s' % (', '.join(cols), '' if freq else ', no frequency')
            r, old = owner(ctx)
            new = r.closed('Y', Y, cols)
            p = attempt(ctx, r, 'st.data_daily', 'st.data_daily, st.data_disagg, st.sun_times', new, dict(freq=freq), what)
            if p is None:
                continue
            r.script('cold = %s' % (' or '.join('(new.%s < 200).any()' % c for c in cols if c in KELVIN)), new=new)
            c = r.get('cold')
            if not isinstance(c, S):
                ctx.undecided(what, why_unknown(r) or 'condition not resolved')
                continue
            if not judge_cond(ctx, 'temperatures in Celsius accepted or temperatures in Kelvin refused', what, what, p, lnot(c.t)):
                continue
            for k in ('now_daily', 'now_hourly', 'now_sun'):
                both = split(r, k, p)
                if both is None:
                    ctx.undecided('%s: %s' % (what, k), why_unknown(r) or 'not resolved')
                    continue
                if both[1] is not old[k] and not same(both[1], old[k]) and not isinstance(both[1], (Frm, S)):
                    ctx.undecided('%s: %s' % (what, k), why_unknown(r) or 'not resolved')
                elif both[1] is old[k] or same(both[1], old[k]):
                    ctx.holds('%s: %s kept when refused' % (what, k))
                else:
                    ctx.violated('refused data replace the previous ones', '%s: %s' % (what, k[4:]))
                if k == 'now_daily':
                    completed(ctx, r, what, both[0], cols, freq)
                if k == 'now_hourly':
                    empty(ctx, r, what, both[0], freq)
    # calendar
    for freq, axis in (('D', Y), (None, ax('span', Y)), ('2D', ax('span', Y)), ('W-MON', ax('span', Y))):
        what = 'melodist/station.py Station.data_daily with %s' % ('frequency %s' % freq if freq else 'gaps')
        cols = ('precip', 'hum', 'wind', 'other')
        r, old = owner(ctx)
        p = attempt(ctx, r, 'st.data_daily', 'st.data_daily, st.data_disagg, st.sun_times', r.closed('Y', Y, cols), dict(freq=freq), what)
        if p is None:
            continue
        if accepted(ctx, what, p):
            completed(ctx, r, what, r.get('now_daily'), cols, freq)
            empty(ctx, r, what, r.get('now_hourly'), freq)


def owner(ctx):
    r = Run(ctx.repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True)
    r.script('''
        st = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=daily)
        now_daily, now_hourly, now_sun = st.data_daily, st.data_disagg, st.sun_times
        ''', lon=param('lon'), lat=param('lat'), tz=param('tz'), daily=r.closed())
    return r, dict((k, r.get(k)) for k in ('now_daily', 'now_hourly', 'now_sun'))


def accepted(ctx, what, p):
    v = compare(g(p, ONE, ZERO), ONE)
    if v.kind == 'eq':
        ctx.holds(what + ': accepted')
        return True
    if v.kind == 'ne':
        ctx.violated('plausible data refused', what, v.why)
    else:
        ctx.undecided(what, v.why)
    return False


def refused(ctx, r, what, p, old):
    if p is None:
        return
    v = compare(g(p, ONE, ZERO), ZERO)
    if v.kind == 'ne':
        return ctx.violated('implausible data accepted', what, v.why)
    if v.kind != 'eq':
        return ctx.undecided(what, v.why)
    for k, o in old.items():
        now = r.get(k)
        if now is o or same(now, o):
            ctx.holds('%s: %s kept' % (what, k))
        elif not isinstance(now, (Frm, S)):
            ctx.undecided('%s: %s' % (what, k), why_unknown(r) or 'not resolved')
        else:
            ctx.violated('refused data replace the previous ones', '%s: %s' % (what, k[4:]))


def same(a, b):
    return isinstance(a, Frm) and isinstance(b, Frm) and a.axis is b.axis and a.cols == b.cols


def split(r, name, p):
    """objects (when passed, when refused)"""
    v = r.i.st.frames['mod:client'].get(name)
    o = r.i.deref(v)
    if isinstance(o, (Alt, AltH)):
        a, b = (r.i.deref(o.a), r.i.deref(o.b))
        for x, y, c in ((a, b, o.c), (b, a, lnot(o.c))):
            if compare(g(c, ONE, ZERO), g(p, ONE, ZERO)).kind == 'eq' and not isinstance(x, (Alt, AltH)) and not isinstance(y, (Alt, AltH)):
                return x, y
        return None
    return o, o


def completed(ctx, r, what, o, cols, freq):
    """all days of the period, present values unchanged"""
    if not isinstance(o, Frm) or o.open:
        return ctx.undecided(what + ': data', why_unknown(r) or 'not a frame')
    if set(dict(o.cols)) != set(cols):
        return ctx.violated('columns of the data changed', what, ', '.join(map(str, dict(o.cols))))
    axis_of(ctx, 'days missing from the calendar not added', what + ': days', what, o.axis, Y, freq)
    for c, t in o.cols:
        judge(ctx, 'values of the data changed', '%s: %s' % (what, c), what, t, col('Y', c), on_axis(o.axis))


def axis_of(ctx, rule, name, what, got, base, freq):
    """complete days have no gaps, so the calendar of gapless data is the data's own"""
    from ..axes import sameaxis
    if freq == 'D' and (sameaxis(got, ax('span', base)) or sameaxis(got, base)):
        return ctx.holds(name)
    return check_axis(ctx, rule, name, what, got, ax('span', base), None)


def empty(ctx, r, what, o, freq):
    if not isinstance(o, Frm) or o.open:
        return ctx.undecided(what + ': hourly frame', why_unknown(r) or 'not a frame')
    if tuple(dict(o.cols)) != HOURLY:
        return ctx.violated('hourly frame has other columns', what, ', '.join(map(str, dict(o.cols))))
    from ..axes import sameaxis
    if freq == 'D' and (sameaxis(o.axis, ax('hourly', Y)) or sameaxis(o.axis, ax('hourlyfill', Y))):
        ctx.holds(what + ': hours')
    else:
        check_axis(ctx, 'hourly frame covers another period', what + ': hours', what, o.axis, ax('hourlyfill', Y), r)
    for c, t in o.cols:
        judge(ctx, 'hourly frame is not empty', '%s: hourly %s' % (what, c), what, t, NANT, on_axis(o.axis))


def statistics(ctx):
    for name, make, facts in REFUSED + [
            ('daily data', lambda r: r.closed('Y', Y, ('wind',)), {}),
            ('data by minute', lambda r: r.closed('MS', O2, HOURLY), dict(resolution='minute'))]:
        what = 'melodist/stationstatistics.py StationStatistics.data assigned %s' % name
        r = Run(ctx.repo)
        r.i.facts.update(freq='D', resolution=True, increasing=True)
        r.script('ss = melodist.StationStatistics(data=obs)\nnow_daily = ss.data', obs=r.closed('O', O, HOURLY))
        old = {'now_daily': r.get('now_daily')}
        if not isinstance(old['now_daily'], Frm):
            ctx.undecided(what, why_unknown(r) or str(r.dead))
            continue
        p = attempt(ctx, r, 'ss.data', 'ss.data, 0, 0', make(r), facts, what)
        refused(ctx, r, what, p, old)
        # the same through the constructor
        r = Run(ctx.repo)
        r.i.facts.update(freq='D', resolution=True, increasing=True)
        r.i.facts.update(facts)
        if name == 'nothing':
            continue
        r.script('try:\n    ss = melodist.StationStatistics(data=new)\n    passed = True\nexcept Exception:\n    passed = False', new=make(r))
        p = r.get('passed') if not r.error and not r.dead else None
        ctx.count('assignments')
        if isinstance(p, S):
            refused(ctx, r, what.replace('.data assigned', ' built on'), p.t, {})
        else:
            ctx.undecided(what, why_unknown(r) or 'outcome not resolved')
    what = 'melodist/stationstatistics.py StationStatistics.data assigned hourly data'
    r = Run(ctx.repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True)
    r.script('ss = melodist.StationStatistics()')
    p = attempt(ctx, r, 'ss.data', 'ss.data, 0, 0', r.closed('O', O, HOURLY), {}, what)
    if p is not None and accepted(ctx, what, p):
        o = r.get('now_daily')
        if isinstance(o, Frm):
            check_axis(ctx, 'records of the data changed', what + ': records', what, o.axis, O, r)
            for c, t in o.cols:
                judge(ctx, 'values of the data changed', '%s: %s' % (what, c), what, t, col('O', c), on_axis(o.axis))
        else:
            ctx.undecided(what, 'not a frame')
