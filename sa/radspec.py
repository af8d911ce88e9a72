"""Expected hourly radiation of every method, as formulas (C02, C04, C06, C20, C24)."""
from .libpd_group import dagg
from .spec import E
from .suite import HX, X, param, s
from .terms import app, col, g, mk, num, tim

METHODS = ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course')


def P(x):
    return param(x).t


def pot_daily():
    return dagg('mean', HX, E('P.pot'))


def angstroem(ssd, dl, pot, a, b):
    return E('(a + b * ssd / dl) * pot', ssd=ssd, dl=dl, pot=pot, a=a, b=b)


def bristow(tmin, tmax, nxt, pot, a, c, axis=X):
    """nxt: minimum of the next calendar day (own minimum on the last)"""
    dt = E('tmax - (tmin + n) / 2', tmin=tmin, tmax=tmax, n=nxt)
    mean = app('gagg', 'mean', axis, mk('keys', tim('month')), dt, tim('month'))
    return E('a * (1 - exp(-0.036 * exp(-0.154 * m) * dt ** c)) * pot', m=mean, dt=dt, pot=pot, a=a, c=c)


def daily(method):
    """daily mean radiation the hourly values have to add up to"""
    if method in ('pot_rad', 'mean_course'):
        return E('X.glob')
    if method == 'pot_rad_via_ssd':
        return E('w if S.daylength > 0 else 0', w=angstroem(E('X.ssd'), E('S.daylength'), pot_daily(), P('aa'), P('ab')))
    from .values import ax
    nxt = g(app('islast', ax('span', X), 0), E('X.tmin'), E('X.tmin[+1]'))
    return bristow(E('X.tmin'), E('X.tmax'), nxt, pot_daily(), P('ba'), P('bc'))


def shape(method):
    return E("table('mc', hour, month)") if method == 'mean_course' else E('P.pot')


def raw(method):
    sh = shape(method)
    return E('sh / mean * day', sh=sh, mean=dagg('mean', HX, sh), day=daily(method))


def expected(method):
    return E('0 if v < 0.01 else v', v=raw(method))


def kwargs(run, method):
    kw = {'method': s(method)}
    if method == 'mean_course':
        kw['mean_course'] = run.table('mc')
    else:
        kw['pot_rad'] = run.series('P', 'pot', HX)
    if method == 'pot_rad_via_ssd':
        kw['sun_times'] = run.sun()
        kw['angstr_a'], kw['angstr_b'] = param('aa'), param('ab')
    if method == 'pot_rad_via_bc':
        kw['bristcamp_a'], kw['bristcamp_c'] = param('ba'), param('bc')
    return kw
