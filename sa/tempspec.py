"""Expected hourly temperature of every method, as formulas (C04, C05, C06, C20)."""
from .spec import E
from .suite import HX, X, b, s
from .terms import FALSE, TRUE, app, cmp, col, g, lnot, num, rewrite, tim, ZERO
from .values import Frm, ax, lam

SINE = ('sine_min_max', 'sine')
METHODS = SINE + ('sine_mean', 'mean_course_min_max', 'mean_course_mean')
TIMING = ('fix', 'sun_loc', 'sun_loc_shift')
POLAR = cmp('gt', app('count', X, E('S.daylength < 3')), ZERO)


def course_mean():
    k = tim('k')
    return app('rowagg', 'mean', ax('keys', 'lvl', tim('hour')), lam(k, app('lookup', 'mc', k, tim('month'))))


def hours(timing):
    """hour of minimum and maximum"""
    if timing == 'fix':
        return num(7), num(14)
    lo = E('trunc(round(S.sunrise))')
    std = E('round(S.sunnoon) + 2')
    if timing == 'sun_loc':
        return lo, E('trunc(h)', h=std)
    hi = E("round(S.sunnoon + table('md', month))")
    return lo, E('trunc(std if round(S.sunrise) > hi else hi)', std=std, hi=hi)


def expected(method, timing='fix', night=False):
    lo, hi = hours(timing)
    first, last = app('isfirst', X, 0), app('islast', X, 0)
    if method in SINE:
        tn = g(last, E('X.tmin'), E('X.tmin[+1]'))
        tb = g(first, E('X.tmax'), E('X.tmax[-1]'))
        mn = E('X.tmin if hour < hi else tn', hi=hi, tn=tn)
        mx = E('tb if hour < lo else X.tmax', lo=lo, tb=tb)
        mid, amp = E('mn + (mx - mn) / 2', mn=mn, mx=mx), E('(mx - mn) / 2', mn=mn, mx=mx)
        if not night:
            return E('mid + amp * cos(2 * pi / 24 * (hour - hi))', mid=mid, amp=amp, hi=hi)
        return E('mid + amp * cos(pi / (24 - (hi - lo)) * (hour - hi)) if hour >= hi else '
                 'mid + amp * cos(1.25 * pi + 0.75 * pi / (hi - lo) * (hour - lo)) if hour > lo else '
                 'mid + amp * cos(pi / (24 - (hi - lo)) * (24 - hi + hour))', mid=mid, amp=amp, hi=hi, lo=lo)
    if method == 'sine_mean':
        return E('X.temp + (X.tmax - X.tmin) / 2 * cos(2 * pi / 24 * (hour - hi))', hi=hi)
    if method == 'mean_course_min_max':
        return E("X.tmin + table('mc', hour, month) * (X.tmax - X.tmin)")
    if method == 'mean_course_mean':
        return E("X.temp + (X.tmax - X.tmin) * (table('mc', hour, month) - mean)", mean=course_mean())
    raise ValueError(method)


def nonempty(t):
    """data sets are not empty"""
    some = cmp('gt', app('len', X), ZERO)
    return rewrite(t, lambda u: TRUE if u is some else u)


def filled(t):
    """without missing daily values"""
    return rewrite(nonempty(t), lambda u: FALSE if u.op == 'isnull' and u.args[0].op == 'col' and u.args[0].args[0] == 'X' else u)


def kwargs(run, method, timing='fix', night=False, length=None):
    """length: hours of daylight of all days, if fixed"""
    kw = {'method': s(method), 'min_max_time': s(timing), 'mod_nighttime': b(night), 'sun_times': run.sun()}
    if length is not None:
        kw['sun_times'] = run.i.alloc(Frm(X, tuple((c, E(length) if c == 'daylength' else col('S', c)) for c in ('sunrise', 'sunnoon', 'sunset', 'daylength')),
                                          origin='sun'))
    if timing == 'sun_loc_shift':
        kw['max_delta'] = run.bykeys('md', 1)
    if method.startswith('mean_course'):
        kw['mean_course'] = run.table('mc')
    return kw


def configs():
    for m in SINE:
        for t in TIMING:
            for nt in (False, True):
                yield m, t, nt
    for t in TIMING:
        yield 'sine_mean', t, False
    yield 'mean_course_min_max', 'fix', False
    yield 'mean_course_mean', 'fix', False
