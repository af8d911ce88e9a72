"""C20: monthly, hourly and wet/dry tables are built and looked up with their own keys."""
from .. import humspec, radspec, tempspec
from ..axes import canon
from ..libpd_group import dagg
from ..spec import E
from ..suite import HX, Run, X, b, check_axis, comparable, construct, judge, on_axis, param, why_unknown
from ..terms import NANT, app, cmp, col, g, isnull, land, lnot, lor, mk, num, sub, tim
from ..values import Frm, Ser, Tab, ax, lam
from .c18 import suntimes

O = ax('in', 'O', 'H')
MONTH, HOUR = tim('month'), tim('hour')
LOOK = 'table entry of another month, hour or wet/dry state'
BUILD = 'table built with other keys or values'


def run(ctx):
    lookups(ctx)
    monthly(ctx)
    course(ctx)
    wetdry(ctx)
    shift(ctx)
    ctx.floor('lookups', 12)
    ctx.floor('tables', 4)


def lookups(ctx):
    for p in (False, True):
        r = Run(ctx.repo)
        cfg = "method='month_hour_precip_mean', preserve_daily_mean=%r" % p
        r.call('disaggregate_humidity', [r.frame()], humspec.kwargs(r, 'month_hour_precip_mean', p))
        want = humspec.raw('month_hour_precip_mean')
        value(ctx, r, 'disaggregate_humidity', cfg, humspec.limited(humspec.corrected(want) if p else want))
    for m, t, nt in tempspec.configs():
        if t != 'sun_loc_shift' and not m.startswith('mean_course'):
            continue
        r = Run(ctx.repo)
        r.call('disaggregate_temperature', [r.frame()], tempspec.kwargs(r, m, t, nt))
        assume = [lnot(tempspec.POLAR)] if m.startswith('sine') else []
        value(ctx, r, 'disaggregate_temperature', 'method=%r, min_max_time=%r, mod_nighttime=%r' % (m, t, nt),
              tempspec.expected(m, t, nt), assume)
    r = Run(ctx.repo)
    r.call('disaggregate_radiation', [r.frame()], radspec.kwargs(r, 'mean_course'))
    value(ctx, r, 'disaggregate_radiation', "method='mean_course'", radspec.expected('mean_course'))


def value(ctx, r, f, cfg, want, assume=()):
    ctx.count('lookups')
    what = construct(ctx.repo, f, cfg)
    res = comparable(ctx, r, what, what)
    if res is not None:
        judge(ctx, LOOK, what, what, res[1], want, on_axis(res[0]) + list(assume))


def monthly(ctx):
    """parameters given by month"""
    a, c = app('lookup', 'pa', MONTH), app('lookup', 'pc', MONTH)
    r = Run(ctx.repo)
    fr = r.i.deref(r.monthframe('p', ('a', 'c')))
    ser = dict((k, r.i.alloc(Ser(fr.axis, t, 'series', origin='p' + k, name=k))) for k, t in fr.cols)
    r.call('angstroem', [r.series('X', k, X) for k in ('ssd', 'dl', 'pot')] + [ser['a'], ser['c']])
    value(ctx, r, 'angstroem', 'parameters by month', radspec.angstroem(E('X.ssd'), E('X.dl'), E('X.pot'), a, c))
    r = Run(ctx.repo)
    ser = dict((k, r.i.alloc(Ser(fr.axis, t, 'series', origin='p' + k, name=k))) for k, t in fr.cols)
    r.call('bristow_campbell', [r.series('X', k, X) for k in ('tmin', 'tmax', 'pot')] + [ser['a'], ser['c']])
    nxt = g(app('islast', ax('span', X), 0), E('X.tmin'), E('X.tmin[+1]'))
    value(ctx, r, 'bristow_campbell', 'parameters by month', radspec.bristow(E('X.tmin'), E('X.tmax'), nxt, E('X.pot'), a, c))
    for m in ('pot_rad_via_ssd', 'pot_rad_via_bc'):
        r = Run(ctx.repo)
        ser = dict((k, r.i.alloc(Ser(fr.axis, t, 'series', origin='p' + k, name=k))) for k, t in fr.cols)
        kw = radspec.kwargs(r, m)
        old = ('angstr_a', 'angstr_b') if m == 'pot_rad_via_ssd' else ('bristcamp_a', 'bristcamp_c')
        par = [kw[k].t for k in old]
        kw[old[0]], kw[old[1]] = ser['a'], ser['c']
        r.call('disaggregate_radiation', [r.frame()], kw)
        from .c18 import subst
        value(ctx, r, 'disaggregate_radiation', 'method=%r, parameters by month' % m,
              subst(radspec.expected(m), dict(zip(par, (a, c)))))


def course(ctx):
    for norm in (False, True):
        r = Run(ctx.repo)
        what = construct(ctx.repo, 'calculate_mean_daily_course_by_month', 'normalize=%r' % norm)
        r.call('calculate_mean_daily_course_by_month', [r.series('O', 'v', O)], {'normalize': b(norm)})
        o = table(ctx, r, what, Tab)
        if o is None:
            continue
        if not check_axis(ctx, 'rows of the table are not the hours', what + ': rows', what, o.rows, ax('keys', 'lvl', HOUR), r):
            continue
        if not check_axis(ctx, 'columns of the table are not the months', what + ': columns', what, o.cols, ax('keys', 'lvl', MONTH), r):
            continue
        k = tim('k')
        m = lambda row: app('gagg', 'mean', O, mk('keys', MONTH, HOUR), col('O', 'v'), tim('col'), row)
        want = m(tim('row'))
        if norm:
            lo = app('rowagg', 'min', ax('keys', 'lvl', HOUR), lam(k, m(k)))
            hi = app('rowagg', 'max', ax('keys', 'lvl', HOUR), lam(k, m(k)))
            want = E('(v - lo) / (hi - lo)', v=want, lo=lo, hi=hi)
        judge(ctx, BUILD, what, what, o.t, want)


def table(ctx, r, what, kind):
    ctx.count('tables')
    if r.error or r.dead and r.i.undecided:
        ctx.undecided(what, why_unknown(r))
    elif r.dead:
        ctx.violated('call always fails', what, r.dead)
    elif not isinstance(r.obj(), kind):
        ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(r.obj()).__name__)
    else:
        return r.obj()


def wetdry(ctx):
    r = Run(ctx.repo)
    what = construct(ctx.repo, 'calculate_month_hour_precip_mean')
    r.call('calculate_month_hour_precip_mean', [r.closed('O', O, ('temp', 'hum', 'precip'))])
    o = table(ctx, r, what, Ser)
    if o is None:
        return
    wet = cmp('gt', dagg('sum', O, col('O', 'precip')), num(0))
    check_axis(ctx, 'table has other keys', what + ': keys', what, o.axis, ax('keys', 'group', MONTH, HOUR, wet), r)
    judge(ctx, BUILD, what, what, o.t, app('gagg', 'mean', O, mk('keys', MONTH, HOUR, wet), col('O', 'hum'), *[tim('key%d' % k) for k in range(3)]))


def shift(ctx):
    r = Run(ctx.repo)
    what = construct(ctx.repo, 'get_shift_by_data')
    r.call('get_shift_by_data', [r.series('O', 'temp', O), param('lon'), param('lat'), param('tz')])
    o = table(ctx, r, what, Ser)
    if o is None:
        return
    check_axis(ctx, 'table has other keys', what + ': keys', what, o.axis, ax('keys', 'group', MONTH), r)
    mx = dagg('idxmax', O, col('O', 'temp'))
    v = g(land(app('dayhas', O, 0), lnot(isnull(mx))), sub(app('tsattr', 'hour', mx), suntimes()['sunnoon']), NANT)
    judge(ctx, BUILD, what, what, o.t, app('gagg', 'mean', ax('span', ax('days', O)), mk('keys', MONTH), v, tim('key0')))
