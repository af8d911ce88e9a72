"""A station with identifiable data, statistics and earlier results, and what each of its methods has to store (C13, C15)."""
from . import humspec, radspec, tempspec
from .checks.c18 import potential, subst
from .spec import E
from .suite import HX, M, X, Run, n, param, s
from .terms import ONE, ZERO, app, lnot, subterms, tim
from .values import Frm

HOURLY = ('temp', 'precip', 'glob', 'hum', 'wind')
MONTH = tim('month')

SETUP = '''
st = melodist.Station(id='i', name='n', lon=lon, lat=lat, timezone=tz, data_daily=daily)
st.statistics.wind.update(a=wa, b=wb, t_shift=wt)
st.statistics.hum.update(a0=a0, a1=a1, kr=kr, month_hour_precip_mean=mhp)
st.statistics.temp.update(max_delta=md, mean_course=mc)
st.statistics.glob.update(angstroem=ang, bristcamp=bri, mean_course=gc)
st.sun_times = sun
'''


def env(r):
    e = dict((k, param(k)) for k in ('lon', 'lat', 'tz', 'wa', 'wb', 'wt', 'a0', 'a1'))
    e.update(daily=r.closed(), kr=n(12), mhp=r.bykeys('mhp', 3), md=r.bykeys('md', 1), mc=r.table('mc'), gc=r.table('gc'),
             ang=r.monthframe('ang', ('a', 'b')), bri=r.monthframe('bri', ('a', 'c')), sun=r.sun(),
             pot=r.series('P', 'pot', HX), master=r.series('M', 'precip', M))
    for c in HOURLY:
        e['old_' + c] = r.series('T', c, HX)
    return e


def station(repo, preset=True):
    """a station on a complete calendar, with earlier results T in its hourly columns"""
    r = Run(repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True)
    text = SETUP
    if preset:
        text += ''.join('st.data_disagg[%r] = old_%s\n' % (c, c) for c in HOURLY)
    r.script(text, **env(r))
    return r


def jobs():
    """(station method, options, column, expected term, assumptions)"""
    P = dict((k, param(k).t) for k in ('lon', 'lat', 'tz', 'wa', 'wb', 'wt'))
    yield 'disaggregate_wind', "method='equal'", 'wind', E('X.wind'), []
    yield ('disaggregate_wind', "method='cosine'", 'wind',
           E('a * X.wind * cos(pi * (hour - ts) / 12) + b * X.wind', a=P['wa'], b=P['wb'], ts=P['wt']), [])
    yield 'disaggregate_wind', "method='random'", 'wind', lambda rand: E('X.wind * (-log(u)) ** 0.3', u=rand), []
    for m in humspec.METHODS:
        for p in (False, True):
            t = humspec.raw(m, 12)
            yield ('disaggregate_humidity', 'method=%r, preserve_daily_mean=%r' % (m, p), 'hum',
                   humspec.limited(humspec.corrected(t) if p else t), [])
    for m, t, nt in tempspec.configs():
        yield ('disaggregate_temperature', 'method=%r, min_max_time=%r, mod_nighttime=%r' % (m, t, nt), 'temp',
               tempspec.expected(m, t, nt), [lnot(tempspec.POLAR)] if m.startswith('sine') else [])
    month = {param('aa').t: app('lookup', 'anga', MONTH), param('ab').t: app('lookup', 'angb', MONTH),
             param('ba').t: app('lookup', 'bria', MONTH), param('bc').t: app('lookup', 'bric', MONTH)}
    for m in radspec.METHODS:
        t = subst(radspec.expected(m), month)
        if m == 'mean_course':
            t = subst(t, {app('lookup', 'mc', tim('hour'), MONTH): app('lookup', 'gc', tim('hour'), MONTH)})
            yield 'disaggregate_radiation', 'method=%r' % m, 'glob', t, []
            continue
        yield 'disaggregate_radiation', 'method=%r, pot_rad=pot' % m, 'glob', t, []
        d, f = potential(E('hour'))
        own = subst(E('d + f', d=d, f=f), {param('slope').t: ZERO, param('azi').t: ZERO, param('cf').t: ZERO})
        yield 'disaggregate_radiation', 'method=%r' % m, 'glob', subst(t, {E('P.pot'): own}), []
    yield 'disaggregate_precipitation', "method='equal'", 'precip', E('X.precip / 24'), []
    from .libpd_group import dagg
    day = dagg('sum', M, E('M.precip'))
    for z in ('uniform', 'zero'):
        yield ('disaggregate_precipitation', "method='masterstation', zerodiv=%r, master_precip=master" % z, 'precip',
               E('M.precip / day * X.precip if day != 0 else rest', day=day, rest=E('X.precip / 24' if z == 'uniform' else '0 * X.precip')), [])


def expected(want, got):
    """fills in the random numbers drawn"""
    if not callable(want):
        return want
    rand = {u for u in subterms(got) if u.op == 'col' and u.args[0] == 'rand'}
    return want(rand.pop()) if len(rand) == 1 else None


def columns(r, name='st'):
    """the hourly frame of the station, or None"""
    r.script('hourly_result = %s.data_disagg' % name)
    o = r.get('hourly_result') if not r.error else None
    return o if isinstance(o, Frm) else None
