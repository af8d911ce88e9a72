"""C13: documented names are accepted and select their algorithm, unknown names are rejected without a trace."""
from .. import calls, humspec, radspec, station, tempspec
from ..agree import compare
from ..station import HOURLY, columns, jobs
from ..suite import Run, S, X, construct, judge, on_axis, param, s, why_unknown
from ..terms import FALSE, TRUE
from ..values import Frm, Ser, ax

# public functions with the option that names an algorithm: (station method, function, option, names, further arguments)
OPTIONS = [
    ('disaggregate_wind', 'disaggregate_wind', 'method', ('equal', 'cosine', 'random'), ''),
    ('disaggregate_humidity', 'disaggregate_humidity', 'method', humspec.METHODS, ''),
    ('disaggregate_temperature', 'disaggregate_temperature', 'method', tempspec.METHODS, ''),
    ('disaggregate_temperature', 'disaggregate_temperature', 'min_max_time', tempspec.TIMING, "method='sine_min_max', "),
    ('disaggregate_temperature', 'disaggregate_temperature', 'min_max_time', tempspec.TIMING, "method='sine_mean', "),
    ('disaggregate_radiation', 'disaggregate_radiation', 'method', radspec.METHODS, 'pot_rad=pot, '),
    ('disaggregate_precipitation', 'disagg_prec', 'method', ('equal', 'cascade', 'masterstation'), ''),
]
MODES = ('all', 'seasonal', 'monthly')


def variants(names):
    """names close to the documented ones, none of them documented"""
    out = ['unknown', '']
    for x in names:
        out += [x + '_x', x[:-1], x[1:], x.upper(), ' ' + x]
    return [x for x in dict.fromkeys(out) if x not in names]


def run(ctx):
    accepted(ctx)
    calibration(ctx)
    for method, f, opt, names, more in OPTIONS:
        for v in variants(names):
            rejected(ctx, method, f, opt, v, more)
    ctx.floor('documented choices', 30)
    ctx.floor('unknown names', 100)


def accepted(ctx):
    for method, opts, column, want, assume in jobs():
        ctx.count('documented choices')
        what = 'melodist/station.py Station.%s(%s)' % (method, opts)
        r = station.station(ctx.repo)
        if r.dead or r.error:
            ctx.undecided(what, 'station not set up: %s' % (r.error or r.dead))
            continue
        r.script('st.%s(%s)' % (method, opts))
        if not alive(ctx, r, what, 'documented choice rejected'):
            continue
        f = columns(r)
        got = dict(f.cols).get(column) if f is not None else None
        want = station.expected(want, got) if got is not None else None
        if got is None or want is None:
            ctx.undecided(what, why_unknown(r) or 'result column not resolved')
            continue
        judge(ctx, 'choice selects another algorithm', what, what, got, want, on_axis(f.axis) + assume)


def alive(ctx, r, what, rule):
    if r.error:
        ctx.undecided(what, r.error)
    elif r.dead and r.i.undecided:
        ctx.undecided(what, '%s (%s)' % (r.dead, r.i.undecided[0]))
    elif r.dead:
        ctx.violated(rule, what, r.dead)
    else:
        return True
    return False


def calibration(ctx):
    what = 'melodist/stationstatistics.py StationStatistics.calc_radiation_stats'
    for how in MODES + tuple(variants(MODES)):
        r = Run(ctx.repo)
        r.i.facts.update(freq='D', resolution=True, increasing=True)
        O = ax('in', 'O', 'H')
        env = dict(lon=param('lon'), lat=param('lat'), tz=param('tz'), obs=r.closed('O', O, HOURLY), daily=r.closed(), how=s(how),
                   dl=r.series('S', 'daylength', X))
        call = 'ss.calc_radiation_stats(data_daily=daily, day_length=dl, how=how)'
        r.script('ss = melodist.StationStatistics(data=obs, lon=lon, lat=lat, timezone=tz)', **env)
        if how in MODES:
            ctx.count('documented choices')
            r.script(call)
            if alive(ctx, r, '%s(how=%r)' % (what, how), 'documented choice rejected'):
                ctx.holds('%s(how=%r) accepted' % (what, how))
            continue
        ctx.count('unknown names')
        before = fields(r, 'ss', 'glob')
        refused(ctx, r, call, '%s(how=%r)' % (what, how), lambda: fields(r, 'ss', 'glob') == before)


def fields(r, name, attr):
    """contents of the parameter collections of a statistics object"""
    o = r.get(name)
    out = []
    b = r.i.deref(dict(o.fields).get(attr)) if o is not None else None
    for k, v in sorted(getattr(b, 'fields', ()) or getattr(b, 'items', ()), key=str):
        x = r.i.deref(v)
        out.append((str(k), str(x) if not isinstance(x, Frm) else str((x.axis, x.cols))))
    return out


def refused(ctx, r, call, what, unchanged):
    r.script('try:\n    %s\n    passed = True\nexcept Exception:\n    passed = False\n' % call)
    if r.error or r.dead:
        return ctx.undecided(what, r.error or r.dead)
    p = r.get('passed')
    if not isinstance(p, S):
        return ctx.undecided(what, why_unknown(r) or 'outcome not resolved')
    if p.t is not FALSE:
        v = compare(p.t, FALSE)
        if v.kind != 'eq':
            # statements that are not modelled come after the point of rejection
            if p.t is TRUE or v.kind == 'ne':
                return ctx.violated('unknown name accepted', what, 'no exception is raised')
            return ctx.undecided(what, v.why)
    if unchanged():
        ctx.holds(what)
    else:
        ctx.violated('data changed although the name was rejected', what)


def rejected(ctx, method, f, opt, name, more):
    ctx.count('unknown names')
    what = 'melodist/station.py Station.%s(%s%s=%r)' % (method, more, opt, name)
    r = station.station(ctx.repo)
    if r.dead or r.error:
        return ctx.undecided(what, 'station not set up: %s' % (r.error or r.dead))
    was = state(r)
    refused(ctx, r, 'st.%s(%s%s=%r)' % (method, more, opt, name), what, lambda: state(r) == was)
    # the function itself
    what = construct(ctx.repo, f, '%s%s=%r' % (more, opt, name))
    r = Run(ctx.repo)
    args, kw = next(mk(r) for g, c, mk, need, near in calls.disaggregations() if g == f and (not more.startswith('method') or more[:-2] in c))
    kw = dict(kw)
    kw[opt] = s(name)
    r.call(f, args, kw)
    if r.dead:
        ctx.holds(what)
    elif r.error:
        ctx.undecided(what, r.error)
    else:
        ctx.violated('unknown name accepted', what, 'no exception is raised')


def state(r):
    """everything a station holds, as text"""
    st = r.get('st')
    out = []
    for k, v in st.fields:
        o = r.i.deref(v)
        if isinstance(o, Frm):
            out.append((k, str(o.axis), str(o.cols)))
        elif k == '_statistics':
            for a, b in o.fields:
                out.append((k, a, str(fields_of(r, b))))
        else:
            out.append((k, str(o)))
    return sorted(out)


def fields_of(r, v):
    b = r.i.deref(v)
    if isinstance(b, (Frm, Ser)):
        return str(b)
    fs = getattr(b, 'fields', None) or getattr(b, 'items', None)
    if fs is None or callable(fs):
        return str(b)
    return sorted((str(k), str(r.i.deref(x))) for k, x in fs)
