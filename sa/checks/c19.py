"""C19: vapour pressure, dew point and the humidity methods built on them follow one set of formulas."""
from .. import humspec
from ..humspec import vp
from ..spec import E
from ..suite import HX, X, Run, S, b, check_axis, comparable, construct, judge, n, num, on_axis, param, s
from ..terms import sym


def run(ctx):
    t, h = E('X.t'), E('X.h')
    vaps = [
        ('temp, hum series', lambda r: [r.series('X', 't', X), r.series('X', 'h', X)], E('vp(X.t) * X.h / 100', vp=vp)),
        ('temp series, hum scalar', lambda r: [r.series('X', 't', X), param('h')], E('vp(X.t) * h / 100', vp=vp, h=param('h').t)),
        ('temp series, hum=100', lambda r: [r.series('X', 't', X), n(100)], E('vp(X.t)', vp=vp)),
        ('hourly temp, hum=100', lambda r: [r.temp(), n(100)], E('vp(T.temp)', vp=vp)),
    ]
    for cfg, mk, want in vaps:
        one(ctx, 'vapor_pressure', cfg, mk, {}, want, 'vapour pressure differs from the Magnus formula')
    # the dew point inverts the formula with the coefficients used at that temperature
    e = E('log(v / 6.112)', v=E('vp(X.t) * X.h / 100', vp=vp))
    want = E('(243.12 * e / (17.62 - e) if X.t >= 273.15 else 272.62 * e / (22.46 - e)) + 273.15', e=e)
    one(ctx, 'dewpoint_temperature', 'temp, hum series', lambda r: [r.series('X', 't', X), r.series('X', 'h', X)], {}, want,
        'dew point does not invert the vapour pressure')
    for m, p, kr in humspec.configs():
        if p:
            continue
        want = humspec.limited(humspec.raw(m, kr))
        cfg = 'method=%r%s' % (m, ', kr=%d' % kr if m == 'linear_dewpoint_variation' else '')
        r = Run(ctx.repo)
        kw = humspec.kwargs(r, m, p, kr)
        one(ctx, 'disaggregate_humidity', cfg, lambda r: [r.frame()], kw, want, 'humidity method differs from its formula', r)
    # without kr or with another period than 6 or 12 hours the diurnal term is undefined: must be refused
    for cfg, kr in (('kr missing', None), ('kr=8', 8), ('kr=24', 24)):
        r = Run(ctx.repo)
        kw = humspec.kwargs(r, 'linear_dewpoint_variation', False)
        if kr is None:
            del kw['kr']
        else:
            kw['kr'] = n(kr)
        r.call('disaggregate_humidity', [r.frame()], kw)
        name = 'refused: ' + cfg
        if r.dead:
            ctx.holds(name)
        elif r.error or r.i.undecided:
            ctx.undecided(name, r.error or r.i.undecided[0])
        else:
            ctx.violated('invalid period of the dew point variation accepted',
                         construct(ctx.repo, 'disaggregate_humidity', "method='linear_dewpoint_variation', " + cfg))
    ctx.floor('calls analysed', 12)


def one(ctx, fname, cfg, mk, kw, want, rule, r=None):
    r = r or Run(ctx.repo)
    r.call(fname, mk(r), kw)
    ctx.count('calls analysed')
    what = construct(ctx.repo, fname, cfg)
    res = comparable(ctx, r, fname + ' ' + cfg, what)
    if res is not None:
        judge(ctx, rule, fname + ' ' + cfg, what, res[1], want, on_axis(res[0]))
