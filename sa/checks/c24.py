"""C24: the fitted model is the applied model."""
from .. import axes
from ..axes import mask
from ..libpd_group import dagg
from ..spec import E
from ..suite import HX, Run, X, construct, judge, n, on_axis, opaque_reason, param, s, why_unknown, judge_cond
from ..terms import app, cmp, col, decide, g, isnull, land, lnot, num, show, string, subterms
from ..values import Arr, Lib, Opq, S, Ser, Tup, ax

O = ax('in', 'O', 'H')


def run(ctx):
    wind(ctx)
    angstroem(ctx)
    bristow(ctx)
    dewpoint(ctx)
    applied(ctx)
    ctx.floor('fits analysed', 4)


def fits(ctx, r, what, kind):
    """the fit made by a call, or None when it cannot be told"""
    ctx.count('fits analysed')
    if r.error or r.dead and r.i.undecided:
        ctx.undecided(what, why_unknown(r))
        return None
    if r.dead:
        ctx.violated('calibration always fails', what, r.dead)
        return None
    ev = [e.data for e in r.i.events if e.kind == 'fit']
    if len(ev) != 1:
        ctx.undecided(what, '%d fits' % len(ev))
        return None
    if ev[0]['kind'] != kind:
        ctx.undecided(what, 'fitted with %s' % ev[0]['kind'])
        return None
    return ev[0]


def series(r, v):
    o = r.i.deref(v)
    return o if isinstance(o, Ser) else None


def returned(ctx, r, fit, what, order):
    """parameters come back in the order in which they are applied"""
    o = r.obj()
    got = None
    if isinstance(o, Arr) and len(o.shape) == 1:
        got = list(o.cells)
    elif isinstance(o, (Tup,)) and all(isinstance(x, S) for x in o.items):
        got = [x.t for x in o.items]
    name = what + ': parameter order'
    if got is None:
        ctx.undecided(name, 'result not resolved')
        return
    want = [p.t for p in order]
    if len(got) != len(want):
        ctx.violated('number of fitted parameters', what, '%d instead of %d' % (len(got), len(want)))
    for k, (a, b) in enumerate(zip(got, want)):
        judge(ctx, 'fitted parameters returned in another order', '%s %d' % (name, k), what, a, b)


def data(ctx, r, what, model, y, want, obs, present):
    """model and observation on exactly the rows where everything is present"""
    m, o = series(r, model), series(r, y)
    if m is None or o is None:
        ctx.undecided(what, why_unknown(r) or 'fitted data not resolved')
        return
    on = on_axis(m.axis)
    judge(ctx, 'fitted function differs from the applied one', what + ': function', what, m.t, want, on)
    judge(ctx, 'fitted to other data', what + ': observations', what, o.t, obs, on)
    judge_cond(ctx, 'fitted on other records', what + ': records', what, mask(m.axis), present)


def wind(ctx):
    what = construct(ctx.repo, 'fit_cosine_function')
    r = Run(ctx.repo)
    r.call('fit_cosine_function', [r.series('O', 'wind', O)])
    f = fits(ctx, r, what, 'curve_fit')
    if f is None:
        return
    if len(f['params']) != 3:
        ctx.violated('number of fitted parameters', what, '%d instead of 3' % len(f['params']))
        return
    d = dagg('mean', O, col('O', 'wind'))
    a, b, ts = [p.t for p in f['params']]
    data(ctx, r, what, f['model'], f['y'], E('a * d * cos(pi * (hour - ts) / 12) + b * d', a=a, b=b, ts=ts, d=d), E('O.wind'),
         land(app('hourin', 'O', 0), lnot(isnull(E('O.wind')))))
    returned(ctx, r, f, what, f['params'])


def angstroem(ctx):
    what = construct(ctx.repo, 'fit_angstroem_params')
    r = Run(ctx.repo)
    cols = [r.series('X', c, X) for c in ('ssd', 'dl', 'pot', 'obs')]
    r.call('fit_angstroem_params', cols)
    f = fits(ctx, r, what, 'curve_fit')
    if f is None:
        return
    if len(f['params']) != 2:
        ctx.violated('number of fitted parameters', what, '%d instead of 2' % len(f['params']))
        return
    a, b = [p.t for p in f['params']]
    data(ctx, r, what, f['model'], f['y'], E('(a + b * X.ssd / X.dl) * X.pot', a=a, b=b), E('X.obs'), present('ssd', 'dl', 'pot', 'obs'))
    returned(ctx, r, f, what, f['params'])


def present(*names):
    return land(app('dayin', 'X', 0), *[lnot(isnull(col('X', c))) for c in names])


def bristow(ctx):
    what = construct(ctx.repo, 'fit_bristow_campbell_params')
    r = Run(ctx.repo)
    cols = dict((c, r.series('X', c, X)) for c in ('tmin', 'tmax', 'pot', 'obs'))
    r.call('fit_bristow_campbell_params', [cols[c] for c in ('tmin', 'tmax', 'pot', 'obs')])
    f = fits(ctx, r, what, 'minimize')
    if f is None:
        return
    if len(f['params']) != 2:
        ctx.violated('number of fitted parameters', what, '%d instead of 2' % len(f['params']))
        return
    returned(ctx, r, f, what, f['params'])
    cols = dict((c, r.series('X', c, X)) for c in ('tmin', 'tmax', 'pot', 'obs'))
    got = f['model']
    r.script('''
        df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot, obs=obs)).dropna(how='any')
        want = np.abs(np.mean(melodist.bristow_campbell(df.tmin, df.tmax, df.pot, a, c) - df.obs))
        ''', a=f['params'][0], c=f['params'][1], **cols)
    want = r.get('want')
    if not isinstance(got, S) or not isinstance(want, S):
        ctx.undecided(what + ': criterion', why_unknown(r) or 'not resolved')
        return
    judge(ctx, 'fitted function differs from the applied one', what + ': criterion', what, got.t, want.t)


def dewpoint(ctx):
    what = construct(ctx.repo, 'calculate_dewpoint_regression')
    r = Run(ctx.repo)
    fr = r.closed('O', O, ('temp', 'hum', 'precip'))
    r.call('calculate_dewpoint_regression', [fr])
    f = fits(ctx, r, what, 'linregress')
    if f is None:
        return
    p = dict(zip(('slope', 'intercept'), f['params']))
    returned(ctx, r, f, what, [p['slope'], p['intercept']])
    r.script('''
        d = melodist.util.dewpoint_temperature(temp, hum)
        ''', temp=r.series('O', 'temp', O), hum=r.series('O', 'hum', O))
    d = r.get('d')
    x, y = series(r, f['x']), series(r, f['y'])
    if x is None or y is None or not isinstance(d, Ser):
        ctx.undecided(what, why_unknown(r) or 'regression data not resolved')
        return
    on = on_axis(x.axis)
    judge(ctx, 'regression on another variable', what + ': minimum temperature', what, x.t, dagg('min', O, col('O', 'temp')), on)
    judge(ctx, 'regression of another variable', what + ': dew point', what, y.t, dagg('mean', O, d.t), on)
    judge_cond(ctx, 'fitted on other records', what + ': records', what, mask(x.axis),
               land(app('dayhas', O, 0), lnot(isnull(dagg('min', O, col('O', 'temp')))), lnot(isnull(dagg('mean', O, d.t)))))
    # the station statistics exchange slope and intercept for a1 and a0
    what = 'melodist/util/util.py linregress'
    r = Run(ctx.repo)
    r.call('linregress' if False else r.i.function('melodist.util.util', 'linregress'), [r.series('X', 'a', X), r.series('X', 'b', X)])
    f = fits(ctx, r, what, 'linregress')
    if f is None:
        return
    returned(ctx, r, f, what, f['params'][:2])
    x, y = series(r, f['x']), series(r, f['y'])
    if x is not None and y is not None:
        judge(ctx, 'regression on another variable', what + ': x', what, x.t, E('X.a'), on_axis(x.axis))
        judge(ctx, 'regression of another variable', what + ': y', what, y.t, E('X.b'), on_axis(y.axis))


def applied(ctx):
    """the functions as they are applied"""
    what = construct(ctx.repo, 'disaggregate_wind', "method='cosine'")
    r = Run(ctx.repo)
    r.call('disaggregate_wind', [r.series('X', 'wind', X)],
           {'method': s('cosine'), 'a': param('a'), 'b': param('b'), 't_shift': param('ts')})
    o = series(r, r.value) if not (r.dead or r.error) else None
    if o is None:
        ctx.undecided(what, why_unknown(r) or str(r.dead))
    else:
        judge(ctx, 'applied function differs from the fitted one', what, what, o.t,
              E('a * X.wind * cos(pi * (hour - ts) / 12) + b * X.wind', a=param('a').t, b=param('b').t, ts=param('ts').t), on_axis(o.axis))
    what = construct(ctx.repo, 'angstroem')
    r = Run(ctx.repo)
    r.call('angstroem', [r.series('X', c, X) for c in ('ssd', 'dl', 'pot')] + [param('a'), param('b')])
    o = series(r, r.value) if not (r.dead or r.error) else None
    if o is None:
        ctx.undecided(what, why_unknown(r) or str(r.dead))
    else:
        judge(ctx, 'applied function differs from the fitted one', what, what, o.t,
              E('(a + b * X.ssd / X.dl) * X.pot', a=param('a').t, b=param('b').t), on_axis(o.axis))
