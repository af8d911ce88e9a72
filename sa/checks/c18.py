"""C18: sun times and potential radiation against the published formulas."""
from ..spec import E
from ..suite import HX, M, X, Frm, Run, b, comparable, construct, judge, n, none, on_axis, param
from ..suite import why_unknown
from ..terms import num, sym
from ..values import ax


def P(x):
    return param(x).t


def suntimes():
    lon, lat, tz = P('lon'), P('lat'), P('tz')
    doy = E('doy')
    b_ = E('2 * pi / 365.25 * (doy - 79.346)')
    decl = E('(0.3723 + 23.2567 * sin(b) - 0.758 * cos(b) + 0.1149 * sin(2 * b) + 0.3656 * cos(2 * b)'
             ' - 0.1712 * sin(3 * b) + 0.0201 * cos(3 * b)) * pi / 180', b=b_)
    s_ = E('2 * pi * (doy - 1) / 365')
    eqt = E('12 / pi * (0.000075 + 0.001868 * cos(s) - 0.032077 * sin(s) - 0.014615 * cos(2 * s) - 0.040849 * sin(2 * s))', s=s_)
    shift = E('(lon - 15 * tz) * 24 / 360', lon=lon, tz=tz)
    arg = E('-tan(lat * pi / 180) * tan(decl)', lat=lat, decl=decl)
    noon = E('12 - shift - eqt', shift=shift, eqt=eqt)
    half = E('12 if arg < -1 else 0 if arg > 1 else 12 * arccos(arg) / pi', arg=arg)
    rise, sset = E('noon - half', noon=noon, half=half), E('noon + half', noon=noon, half=half)
    return {
        'sunrise': E('rise + 24 if rise < 0 else rise', rise=rise),
        'sunnoon': noon,
        'sunset': E('sset - 24 if sset > 24 else sset', sset=sset),
        'daylength': E('sset - rise', rise=rise, sset=sset),
    }


def potential(hour):
    lon, lat, tz, slope, azi, cf = [P(x) for x in ('lon', 'lat', 'tz', 'slope', 'azi', 'cf')]
    decl = E('23.43697 * pi / 180 * cos(2 * pi * (doy - 173) / 365.25)')
    ha = E('pi * ((hr + (lon - 15 * tz) * 24 / 360) / 12 - 1)', hr=hour, lon=lon, tz=tz)
    lr = E('lat * pi / 180', lat=lat)
    cz = E('max(sin(decl) * sin(lr) + cos(decl) * cos(lr) * cos(ha), 0)', decl=decl, lr=lr, ha=ha)
    z = E('arccos(cz)', cz=cz)
    beta = E('2 * pi * doy / 365.25')
    sc = E('1367 * (1.00011 + 0.034221 * cos(b) + 0.00128 * sin(b) + 0.000719 * cos(2 * b) + 0.000077 * sin(2 * b))', b=beta)
    mu = E('arcsin(cos(decl) * sin(ha) / sin(z))', decl=decl, ha=ha, z=z)
    cosi = E('cos(slope) * cz + sin(slope) * sin(z) * cos(mu - azi)', slope=slope, cz=cz, z=z, mu=mu, azi=azi)
    direct = E('max(sc * (0.6 + 0.2 * cz) * (1 - cf) * cosi, 0)', sc=sc, cz=cz, cf=cf, cosi=cosi)
    diffuse = E('sc * (0.3 + 0.1 * cz) * cf * cz', sc=sc, cz=cz, cf=cf)
    return direct, diffuse


def run(ctx):
    r = Run(ctx.repo)
    r.call('get_sun_times', [r.index(X), param('lon'), param('lat'), param('tz')])
    what = construct(ctx.repo, 'get_sun_times')
    want = suntimes()
    frame_parts(ctx, r, what, want, 'sun times differ from the published series', X)
    for axis, name in ((HX, 'hourly dates'), (ax('in', 'M', 'm'), 'dates with minutes')):
        hr = E('hour + minute / 60') if name == 'dates with minutes' else E('hour')
        direct, diffuse = potential(hr)
        args = lambda r: [r.index(axis)] + [param(x) for x in ('lon', 'lat', 'tz', 'slope', 'azi', 'cf')]
        what = construct(ctx.repo, 'potential_radiation', name)
        r = Run(ctx.repo)
        r.call('potential_radiation', args(r), {'split': b(True)})
        frame_parts(ctx, r, what + ' split', {'direct': direct, 'diffuse': diffuse},
                    'potential radiation differs from the published model', axis)
        r = Run(ctx.repo)
        r.call('potential_radiation', args(r), {})
        res = comparable(ctx, r, what, what)
        ctx.count('quantities compared')
        if res is not None:
            judge(ctx, 'potential radiation is not the sum of its parts', what, what, res[1], E('a + b', a=direct, b=diffuse),
                  on_axis(res[0]))
    # horizontal, cloud-free terrain is the default
    from ..terms import ZERO, rewrite
    zero = {P('slope'): ZERO, P('azi'): ZERO, P('cf'): ZERO}
    direct, diffuse = [subst(t, zero) for t in potential(E('hour'))]
    r = Run(ctx.repo)
    r.call('potential_radiation', [r.index(HX), param('lon'), param('lat'), param('tz')], {})
    what = construct(ctx.repo, 'potential_radiation', 'defaults')
    res = comparable(ctx, r, what, what)
    ctx.count('quantities compared')
    if res is not None:
        judge(ctx, 'potential radiation of flat cloud-free terrain differs', what, what, res[1],
              E('a + b', a=direct, b=diffuse), on_axis(res[0]))
    ctx.floor('quantities compared', 10)


def subst(t, m):
    from ..terms import rewrite
    return rewrite(t, lambda u: m.get(u, u))


def frame_parts(ctx, r, what, want, rule, axis):
    ctx.count('quantities compared', len(want))
    o = r.obj()
    if r.error or r.dead or not isinstance(o, Frm):
        if r.dead and not r.i.undecided:
            ctx.violated('call always fails', what, r.dead)
            return
        ctx.undecided(what, why_unknown(r) or r.dead or 'not a frame')
        return
    cols = dict(o.cols)
    if not o.open and set(cols) != set(want):
        ctx.violated('result columns differ', what, 'columns %s instead of %s' % (sorted(map(str, cols)), sorted(want)))
        return
    for c in sorted(want):
        if c not in cols:
            ctx.undecided(what + ' ' + c, 'column not resolved')
            continue
        judge(ctx, rule, what + ' ' + c, what + ' ' + c, cols[c], want[c], on_axis(o.axis))
