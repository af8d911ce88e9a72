"""C01: every returned relative humidity is missing or within 0..100."""
from .. import humspec
from ..suite import HX, Run, comparable, construct, judge, on_axis
from ..terms import ONE, ZERO, cmp, g, lor, num


def run(ctx):
    for m, p, kr in humspec.configs():
        cfg = 'method=%r, preserve_daily_mean=%r%s' % (m, p, ', kr=%d' % kr if m == 'linear_dewpoint_variation' else '')
        what = construct(ctx.repo, 'disaggregate_humidity', cfg)
        r = Run(ctx.repo)
        r.call('disaggregate_humidity', [r.frame()], humspec.kwargs(r, m, p, kr))
        ctx.count('calls analysed')
        res = comparable(ctx, r, cfg, what)
        if res is None:
            continue
        axis, t = res
        out = g(lor(cmp('lt', t, num(0)), cmp('gt', t, num(100))), ONE, ZERO)
        judge(ctx, 'humidity outside 0..100', 'bounds ' + cfg, what, out, ZERO, on_axis(axis))
        want = humspec.raw(m, kr)
        if p:
            want = humspec.corrected(want)
        judge(ctx, 'humidity changed within or limited outside the bounds', 'limits ' + cfg, what, t, humspec.limited(want),
              on_axis(axis))
    ctx.floor('calls analysed', 12)
