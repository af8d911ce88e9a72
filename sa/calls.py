"""Every documented way to call the disaggregation functions (C06, C07, C11, C13, C22)."""
from . import humspec, radspec, tempspec
from .suite import HX, M, X, n, param, s
from .values import ax

MX = ax('hourly', ax('in', 'M', 'D'))


def wind(method):
    def make(r):
        kw = {'method': s(method)}
        if method == 'cosine':
            kw.update(a=param('a'), b=param('b'), t_shift=param('ts'))
        return [r.series('X', 'wind', X)], kw
    return make


def disaggregations():
    """(function, options, maker of arguments, daily columns needed, neighbouring values used by design)"""
    for m in ('equal', 'cosine', 'random'):
        yield 'disaggregate_wind', 'method=%r' % m, wind(m), ('wind',), ()
    for m, p, kr in humspec.configs():
        need = {'equal': ('hum',), 'minimal': ('tmin',), 'dewpoint_regression': ('tmin',), 'linear_dewpoint_variation': ('tmin',),
                'min_max': ('hum_min', 'hum_max', 'tmin', 'tmax'), 'month_hour_precip_mean': ()}[m]
        yield ('disaggregate_humidity', 'method=%r, preserve_daily_mean=%r%s' % (m, p, ', kr=%d' % kr if 'linear' in m else ''),
               lambda r, m=m, p=p, kr=kr: ([r.frame()], humspec.kwargs(r, m, p, kr)), need,
               (('tmin', 1, 'p'),) if m == 'linear_dewpoint_variation' else ())
    for m, t, nt in tempspec.configs():
        need = {'sine_mean': ('temp', 'tmin', 'tmax'), 'mean_course_mean': ('temp', 'tmin', 'tmax')}.get(m, ('tmin', 'tmax'))
        yield ('disaggregate_temperature', 'method=%r, min_max_time=%r, mod_nighttime=%r' % (m, t, nt),
               lambda r, m=m, t=t, nt=nt: ([r.frame()], tempspec.kwargs(r, m, t, nt)), need,
               (('tmin', 1, 'c'), ('tmax', -1, 'c')) if m in tempspec.SINE else ())
    for m in radspec.METHODS:
        need = {'pot_rad_via_ssd': ('ssd',), 'pot_rad_via_bc': ('tmin', 'tmax')}.get(m, ('glob',))
        yield ('disaggregate_radiation', 'method=%r' % m, lambda r, m=m: ([r.frame()], radspec.kwargs(r, m)), need,
               (('tmin', 1, 'c'),) if m == 'pot_rad_via_bc' else ())
    yield 'disagg_prec', "method='equal'", lambda r: ([r.frame()], {'method': s('equal')}), ('precip',), ()
    for z in ('uniform', 'zero'):
        yield ('disagg_prec', "method='masterstation', zerodiv=%r" % z,
               lambda r, z=z: ([r.series('X', 'precip', X)], {'method': s('masterstation'), 'hourly_data_obs': r.series('M', 'precip', M),
                                                               'zerodiv': s(z)}), ('precip',), ())
        yield ('precip_master_station', 'zerodiv=%r' % z,
               lambda r, z=z: ([r.series('X', 'precip', X), r.series('M', 'precip', M), s(z)], {}), ('precip',), ())
