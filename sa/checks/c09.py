"""C09: SMET files are written and read with the same meaning."""
from ..files import Column, File
from ..suite import M, Run, X, b, construct, judge, n, s, why_unknown
from ..terms import NANT, add, app, cmp, col, g, isnull, lnot, mul, num, string
from ..values import Dct, Frm, S, Tup, ax

HOURLY = ('temp', 'precip', 'glob', 'hum', 'wind')
DAILY = ('tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind')
MARKERS = (-999, -9999, -999.0, -99.9, -999.999, -0.5, 0, 1e20, float('nan'), '-999', '-777.5')
META = (('station_id', 'abc', 'abc'), ('comment', 'a = b=c', 'a = b=c'), ('latitude', 47.5, '47.5'), ('altitude', 600, '600'), ('source', '', ''),
        ('name', 'two words', 'two words'), ('formula', '=x', '=x'))


# the header of another file used again
OLD = (('station_id', 'abc', 'abc'), ('nodata', '-777', None), ('fields', 'timestamp TA HS', None), ('units_multiplier', '1 2 3 ', None), ('name', 'x', 'x'))


def run(ctx):
    for mode, axis, names in (('h', M, HOURLY), ('d', X, DAILY)):
        for marker in MARKERS:
            trip(ctx, mode, axis, names + ('ssd',), 'marker %r' % (marker,), kw={'nodata_value': n(marker) if not isinstance(marker, str) else s(marker)}, marker=marker)
        trip(ctx, mode, axis, names, 'header entries', meta=META)
        trip(ctx, mode, axis, names, 'header of another file', meta=OLD)
        trip(ctx, mode, axis, tuple(reversed(names)), 'other order of columns')
        for c in names:
            trip(ctx, mode, axis, (c,), 'only ' + c)
        trip(ctx, mode, axis, names + ('gone', 'TX'), 'unused columns left out', kw={'check_nan': b(True)}, counts={'gone': 0, 'TX': 1})
        trip(ctx, mode, axis, names, 'first column unused', counts={names[0]: 0})
        trip(ctx, mode, axis, names, 'single values', counts=dict((c, 1) for c in names))
        trip(ctx, mode, axis, names + ('gone',), 'unused columns kept', kw={'check_nan': b(False)}, counts={'gone': 0, names[0]: 1, names[1]: 0}, keep=True)
        foreign(ctx, mode, names)
    trip(ctx, 'h', M, HOURLY, 'default mode when writing', default=True)
    ctx.floor('columns', 240)
    ctx.floor('header entries', 14)


def number(marker):
    return float(marker)


def trip(ctx, mode, axis, names, label, kw=None, meta=(), counts=None, keep=False, marker=-999, default=False):
    """write a frame, read it back, compare"""
    what = construct(ctx.repo, 'write_smet', 'mode=%r, %s' % (mode, label))
    src = axis.args[1]
    ctx.count('columns', len(names))
    ctx.count('header entries', len(meta))
    r = Run(ctx.repo)
    r.i.files = {}
    number_of = dict((c, 'many') for c in names)
    number_of.update(counts or {})
    # columns with 0 valid values hold missing values only
    data = dict((c, NANT if number_of[c] == 0 else col(src, c)) for c in names)
    r.i.facts['counts'] = dict((data[c], 1 if number_of[c] == 1 else 7) for c in names if number_of[c] != 0)
    frame = r.i.alloc(Frm(axis, tuple((c, data[c]) for c in names), origin=src))
    head = r.i.alloc(Dct([(k, s(v) if isinstance(v, str) else n(v)) for k, v, t in meta]))
    kw = dict(kw or {})
    if not default:
        kw['mode'] = s(mode)
    if 'check_nan' not in kw and counts is None:
        kw['check_nan'] = b(False)
    r.call('write_smet', [s('out.smet'), frame, head], kw)
    if failed(ctx, r, what):
        return
    if 'out.smet' not in r.i.files:
        ctx.undecided(what, why_unknown(r) or 'no file was seen to be written')
        return
    r.call('read_smet', [s('out.smet'), s(mode)])
    if failed(ctx, r, what):
        return
    if r.i.undecided:
        ctx.undecided(what, why_unknown(r))
        return
    v = r.obj()
    items = v.items if isinstance(v, Tup) else ()
    if len(items) != 2:
        ctx.undecided(what, 'read_smet does not return a header and a frame')
        return
    header(ctx, r, what, items[0], meta)
    o = r.i.deref(items[1])
    if not isinstance(o, Frm) or o.open:
        ctx.undecided(what, 'read_smet returns a %s' % type(o).__name__)
        return
    if o.axis is not axis:
        if o.axis.args[0] == 'labelled':
            t = r.i.pd.tst(axis)
            if judge(ctx, 'time stamps changed', what + ': time stamps', what, o.axis.args[2], t) is not True:
                return
        else:
            ctx.violated('time stamps changed', what, 'read back on %s' % (o.axis,))
            return
    else:
        ctx.holds(what + ': time stamps')
    want = [c for c in names if keep or number_of[c] != 0]
    got = dict(o.cols)
    if [str(c) for c, t in o.cols] != want:
        ctx.violated('other variables after reading', what, '%s instead of %s' % (', '.join(str(c) for c, t in o.cols), ', '.join(want)))
        return
    for c in want:
        x = data[c]
        w = NANT if x is NANT else g(isnull(x), NANT, rounded(x))
        m = number(marker)
        assume = [] if x is NANT or m != m else [lnot(cmp('eq', rounded(x), num(m)))]
        judge(ctx, 'values changed', '%s: %s' % (what, c), '%s: %s' % (what, c), got[c], w, assume)


def rounded(x):
    from ..terms import fn
    return mul(num('1/100'), fn('round', mul(num(100), x)))


def failed(ctx, r, what):
    wrong = [e for e in r.i.events if e.kind == 'misread']
    if wrong and not r.i.undecided:
        ctx.violated('file read with options that do not fit what was written', what, '%s at %s' % (wrong[0].data, wrong[0].where))
        return True
    if r.error or r.dead and r.i.undecided:
        ctx.undecided(what, why_unknown(r))
        return True
    if r.dead:
        ctx.violated('call always fails', what, r.dead + ': ' + '; '.join(str(e.data) for e in r.i.events if e.kind in ('badcall', 'nokey'))[:200])
        return True
    return False


def header(ctx, r, what, value, meta):
    h = r.i.deref(value)
    if not isinstance(h, Dct):
        ctx.undecided(what + ': header', 'header is a %s' % type(h).__name__)
        return
    entries = dict(h.items)
    for k, v, t in meta:
        if t is None:
            continue
        if k not in entries:
            if h.open:
                ctx.undecided('%s: %s' % (what, k), 'header not resolved')
            else:
                ctx.violated('header entry lost', '%s: %s' % (what, k), 'no entry %r after reading' % k)
            continue
        x = entries[k]
        if not isinstance(x, S):
            ctx.undecided('%s: %s' % (what, k), 'entry not resolved')
            continue
        judge(ctx, 'header entry changed', '%s: %s' % (what, k), '%s: %s' % (what, k), x.t, string(t))


def foreign(ctx, mode, names):
    """a file with unit multipliers"""
    what = construct(ctx.repo, 'read_smet', 'mode=%r, unit multipliers' % mode)
    short = {'temp': 'TA', 'tmean': 'TA', 'tmin': 'TMIN', 'tmax': 'TMAX', 'precip': 'PSUM', 'glob': 'ISWR', 'hum': 'RH', 'wind': 'VW'}
    fields = [short[c] for c in names] + ['HS']
    mult = [num(k + 1) for k in range(len(fields))]
    r = Run(ctx.repo)
    cols = [Column('timestamp', 'date', col('F', 'date'), '%Y-%m-%dT%H:%M')] + [Column(c, 'num', col('F', c)) for c in fields]
    text = ['SMET 1.1 ASCII', '[HEADER]', 'station_id = x', 'nodata = -777', 'fields = timestamp ' + ' '.join(fields),
            'units_multiplier = 1 ' + ' '.join(str(k + 1) for k in range(len(fields))), '[DATA]']
    r.i.files = {'in.smet': File('F', text, cols, ' ', header=False)}
    r.call('read_smet', [s('in.smet'), s(mode)])
    if failed(ctx, r, what):
        return
    v = r.obj()
    items = v.items if isinstance(v, Tup) else ()
    o = r.i.deref(items[1]) if len(items) == 2 else None
    if not isinstance(o, Frm) or o.open or r.i.undecided:
        ctx.undecided(what, why_unknown(r) or 'result not resolved')
        return
    got = dict(o.cols)
    want = list(names) + ['HS']
    if [str(c) for c, t in o.cols] != want:
        ctx.violated('other variables after reading', what, '%s instead of %s' % (', '.join(str(c) for c, t in o.cols), ', '.join(want)))
        return
    for c, f, m in zip(want, fields, mult):
        x = col('F', f)
        judge(ctx, 'values changed', '%s: %s' % (what, c), '%s: %s' % (what, c), got[c], g(cmp('eq', x, num(-777)), NANT, mul(m, x)))
