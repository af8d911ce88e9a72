"""Expected hourly humidity of every method before limiting, as formulas (C01, C04, C06, C19, C20)."""
from .spec import E, clip
from .suite import HX, X, b, n, param, s
from .terms import ZERO, app, g, cmp, isnull, num, sub
from .libpd_group import dagg

METHODS = ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean')


def vp(t):
    """saturation vapour pressure over water / ice"""
    return E('6.112 * exp(17.62 * (t - 273.15) / (243.12 + t - 273.15)) if t >= 273.15 '
             'else 6.112 * exp(22.46 * (t - 273.15) / (272.62 + t - 273.15))', t=t)


def raw(method, kr=12):
    a0, a1 = param('a0').t, param('a1').t
    if method == 'equal':
        return E('X.hum')
    if method == 'minimal':
        return E('100 * vp(X.tmin) / vp(T.temp)', vp=vp)
    if method in ('dewpoint_regression', 'linear_dewpoint_variation'):
        td = E('a0 + a1 * X.tmin', a0=a0, a1=a1)
        if method == 'linear_dewpoint_variation':
            last = app('islast', X, 0)
            nxt = g(last, td, E('a0 + a1 * X.tmin[+1]', a0=a0, a1=a1))
            # day to day shift is by position in the index
            from .terms import col
            nxt = g(last, td, E('a0 + a1 * t1', a0=a0, a1=a1, t1=col('X', 'tmin', 1, 'p')))
            td = E('td + hour / 24 * (nxt - td) + 0.5 * sin((hour + 1) * pi / kr - 3 * pi / 4)', td=td, nxt=nxt, kr=kr)
        return E('100 * vp(td) / vp(T.temp)', vp=vp, td=td)
    if method == 'min_max':
        return E('X.hum_max + (T.temp - X.tmin) / (X.tmax - X.tmin) * (X.hum_min - X.hum_max)')
    if method == 'month_hour_precip_mean':
        return E("table('mhp', month, hour, X.precip > 0)")


def corrected(t):
    """bias correction towards the observed daily mean; no correction where it is unknown"""
    bias = sub(dagg('mean', HX, t), E('X.hum'))
    return sub(t, g(isnull(bias), ZERO, bias))


def limited(t):
    return clip(t, num(0), num(100))


def kwargs(run, method, preserve, kr=12):
    kw = {'method': s(method), 'preserve_daily_mean': b(preserve)}
    if method not in ('equal', 'month_hour_precip_mean'):
        kw['temp'] = run.temp()
    if method in ('dewpoint_regression', 'linear_dewpoint_variation'):
        kw['a0'], kw['a1'] = param('a0'), param('a1')
    if method == 'linear_dewpoint_variation':
        kw['kr'] = n(kr)
    if method == 'month_hour_precip_mean':
        kw['month_hour_precip_mean'] = run.bykeys('mhp', 3)
    return kw


def configs():
    for m in METHODS:
        for p in (False, True):
            for kr in ((6, 12) if m == 'linear_dewpoint_variation' else (12,)):
                yield m, p, kr
