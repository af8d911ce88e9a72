"""C14: location, statistics and sun times of a station agree, whatever the order of assignments."""
from itertools import permutations

from ..agree import compare
from ..suite import Run, S, X, judge, on_axis, param, why_unknown
from ..terms import NONE, ONE, ZERO, g
from ..values import Alt, Frm, ax

Y = ax('in', 'Y', 'D')
DATA = {'data1': ('X', X), 'data2': ('Y', Y)}
FIELDS = ('lon', 'lat', 'timezone')
STARTS = [
    ('Station()', {}),
    ('Station(lon, lat)', dict(lon='lon1', lat='lat1')),
    ('Station(timezone)', dict(timezone='tz1')),
    ('Station(lon, lat, timezone)', dict(lon='lon1', lat='lat1', timezone='tz1')),
    ('Station(data)', dict(data_daily='data1')),
    ('Station(lon, lat, data)', dict(lon='lon1', lat='lat1', data_daily='data1')),
    ('Station(lon, lat, timezone, data)', dict(lon='lon1', lat='lat1', timezone='tz1', data_daily='data1')),
]
# every assignment a user can make, in every order
STEPS = {'lon': 'lon2', 'lat': 'lat2', 'timezone': 'tz2', 'data_daily': 'data2', 'statistics': 'melodist.StationStatistics(lon=lon3, lat=lat3, timezone=tz3)'}


def orders():
    for name, start in STARTS:
        if not start:
            for p in permutations(STEPS):
                yield name, start, p
            continue
        for p in permutations(STEPS, 2):
            yield name, start, p


def run(ctx):
    for name, start, steps in orders():
        follow(ctx, name, start, steps)
    ctx.floor('orders of assignment', 200)
    ctx.floor('states checked', 700)


def follow(ctx, name, start, steps):
    ctx.count('orders of assignment')
    r = Run(ctx.repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True)
    env = dict((k, param(k)) for k in ('lon1', 'lat1', 'tz1', 'lon2', 'lat2', 'tz2', 'lon3', 'lat3', 'tz3'))
    env.update((k, r.closed(*v)) for k, v in DATA.items())
    env['suntimes_of'] = r.find('get_sun_times')
    now = dict(start)
    done = name
    r.script('st = melodist.Station(%s)' % ', '.join('%s=%s' % kv for kv in start.items()), **env)
    if not state(ctx, r, now, done):
        return
    for k in steps:
        done += ', %s' % k
        if k != 'statistics':
            now[k] = STEPS[k]
        r.script('st.%s = %s' % (k, STEPS[k]))
        if not state(ctx, r, now, done):
            return


def state(ctx, r, now, done):
    """everything the station says about itself after one more assignment"""
    what = 'melodist/station.py Station after %s' % done
    if not alive(ctx, r, what):
        return False
    for k in FIELDS:
        r.script('now_%s, stat_%s = st.%s, st.statistics._%s' % (k, k, k, k))
    r.script('now_sun = st.sun_times')
    if all(k in now for k in FIELDS + ('data_daily',)):
        r.script('want_sun = suntimes_of(%s.index, %s)' % (now['data_daily'], ', '.join(now[k] for k in FIELDS)))
    if not alive(ctx, r, what):
        return False
    ctx.count('states checked')
    for k in FIELDS:
        want = param(now[k]).t if k in now else NONE
        for pre, rule in (('now_', 'attribute is not the value last assigned'), ('stat_', 'statistics carry another location than the station')):
            got = r.get(pre + k)
            name = '%s: %s%s' % (what, 'statistics ' if pre == 'stat_' else '', k)
            if isinstance(got, S):
                judge(ctx, rule, name, name, got.t, want)
            else:
                ctx.undecided(name, why_unknown(r) or 'value not resolved')
    if all(k in now for k in FIELDS + ('data_daily',)):
        sun(ctx, r, what + ': sun times', DATA[now['data_daily']][1])
    return True


def sun(ctx, r, what, axis):
    got, want = r.get('now_sun'), r.get('want_sun')
    while isinstance(got, Alt):
        a, b = r.i.deref(got.a), r.i.deref(got.b)
        if not all(isinstance(x, Frm) or isinstance(x, S) and x.t is NONE for x in (a, b)):
            break
        # decided separately for both cases, as far as they can occur
        v = [compare(g(got.c, ONE, ZERO), x) for x in (ZERO, ONE)]
        if any(x.kind == 'unknown' for x in v):
            break
        if v[0].kind == 'ne' and v[1].kind == 'ne' and NONE in (getattr(a, 't', 0), getattr(b, 't', 0)):
            return ctx.violated('sun times missing', what, v[1 if a is NONE else 0].why)
        if v[0].kind == 'ne' and v[1].kind == 'ne':
            break
        got = a if v[1].kind == 'eq' else b
    if isinstance(got, S) and got.t is NONE:
        return ctx.violated('sun times missing', what)
    if not isinstance(got, Frm) or not isinstance(want, Frm):
        return ctx.undecided(what, why_unknown(r) or 'not a frame')
    if got.axis is not want.axis:
        if got.axis.args[0] == 'in':
            return ctx.violated('sun times belong to other data', what)
        return ctx.undecided(what, 'index not resolved')
    a, b = dict(got.cols), dict(want.cols)
    for c in b:
        if c not in a:
            ctx.violated('sun times incomplete', what, c)
            return
        if judge(ctx, 'sun times belong to another location', what + ' ' + c, what, a[c], b[c], on_axis(want.axis)) is False:
            return


def alive(ctx, r, what):
    if r.error:
        ctx.undecided(what, r.error)
    elif r.dead and r.i.undecided:
        ctx.undecided(what, '%s (%s)' % (r.dead, r.i.undecided[0]))
    elif r.dead:
        ctx.violated('assignment fails', what, r.dead)
    else:
        return True
    return False
