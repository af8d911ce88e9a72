"""C10: imported and aggregated data carry the documented units and conventions."""
from ..files import Column, File
from ..libpd_group import dagg
from ..suite import Run, check_axis, construct, judge, s, why_unknown
from ..terms import NANT, ZERO, add, app, cmp, col, div, g, lor, mk, mul, num, string
from ..values import Frm, Lst, Tup, ax

O = ax('in', 'O', 'H')
UNIT = 'values in another unit or convention'

# names of the fields in the files of the weather services
KNMI = ('# STN', 'YYYYMMDD', '   HH', '   DD', '   FH', '   FF', '   FX', '    T', ' T10N', '   TD', '   SQ', '    Q', '   DR', '   RH', '    P',
        '   VV', '    N', '    U')
DWD = {'LUFTTEMPERATUR': 'tmean', 'LUFTTEMPERATUR_MINIMUM': 'tmin', 'LUFTTEMPERATUR_MAXIMUM': 'tmax', 'NIEDERSCHLAGSHOEHE': 'precip',
       'GLOBAL_KW_J': 'glob', 'REL_FEUCHTE': 'hum', 'WINDGESCHWINDIGKEIT': 'wind', 'SONNENSCHEINDAUER': 'sun_h'}
OTHER = ('QUALITAETS_NIVEAU', 'DAMPFDRUCK')


def run(ctx):
    knmi(ctx)
    dwd(ctx)
    aggregated(ctx)
    ctx.floor('fields', 150)


def knmi_file(src):
    def kind(n):
        return 'date' if n == 'YYYYMMDD' else 'num' if n in ('# STN', 'HH') else 'blank'
    return File(src, ['line %d' % k for k in range(31)], [Column(n, kind(n.strip()), col(src, n.strip()), '%Y%m%d') for n in KNMI], ',', True)


def knmi_values(src):
    def v(n, f, low=False):
        x = col(src, n)
        r = f(x)
        if low:
            r = g(cmp('lt', x, ZERO), ZERO, r)
        return g(app('blankcell', x), NANT, r)
    return (('temp', v('T', lambda x: add(mul(num('1/10'), x), num('5463/20')))),
            ('precip', v('RH', lambda x: mul(num('1/10'), x), True)),
            ('glob', v('Q', lambda x: div(mul(num(10000), x), num(3600)))),
            ('hum', v('U', lambda x: x)),
            ('wind', v('FH', lambda x: mul(num('1/10'), x))),
            ('ssd', v('SQ', lambda x: mul(num(6), x), True)))


def knmi_axis(src):
    return ax('labelled', ax('rows', src), add(app('todatetime', col(src, 'YYYYMMDD'), mk('kw', 'format', string('%Y%m%d'))),
                                              mul(num(3600), col(src, 'HH'))))


def knmi(ctx):
    r = Run(ctx.repo)
    r.i.files = {'dir/a.txt': knmi_file('A')}
    r.call('read_single_knmi_file', [s('dir/a.txt')])
    frame(ctx, r, construct(ctx.repo, 'read_single_knmi_file'), r.value, knmi_axis('A'), knmi_values('A'))
    for names in (('a',), ('a', 'b'), ('a', 'b', 'c')):
        r = Run(ctx.repo)
        r.i.files = dict(('dir/%s.txt' % n, knmi_file(n.upper())) for n in reversed(names))
        r.i.files['dir/notes.csv'] = File('N', ['notes'])
        r.call('read_knmi_dataset', [s('dir')])
        xs = [n.upper() for n in names]
        axis = knmi_axis('A') if len(xs) == 1 else mk('ax', 'stacked', *[knmi_axis(x) for x in xs])
        parts = [dict(knmi_values(x)) for x in xs]
        want = tuple((n, parts[0][n] if len(xs) == 1 else app('outerrow', *[p[n] for p in parts])) for n, t in knmi_values('A'))
        frame(ctx, r, construct(ctx.repo, 'read_knmi_dataset', '%d files' % len(xs)), r.value, axis, want)


def dwd_file(src, hourly, names, tail):
    cols = [Column('STATIONS_ID', 'num', col(src, 'id')), Column(' MESS_DATUM', 'date', col(src, 'date'), '%Y%m%d%H' if hourly else '%Y%m%d')]
    cols += [Column(' ' + n, 'num', col(src, n)) for n in names] + [Column('eor', 'text', string('eor'))]
    return File(src, [], cols, ';', True, True, ['generated on some day'] if tail else [])


def dwd_values(src, names):
    out = []
    for n in names:
        if n in DWD:
            x = col(src, n)
            v = add(x, num('5463/20')) if n.startswith('LUFTTEMPERATUR') else x
            out.append((DWD[n], g(cmp('eq', x, num(-999)), NANT, v)))
    return out


def dwd_axis(src, hourly):
    return ax('labelled', ax('rows', src), app('todatetime', col(src, 'date'), mk('kw', 'format', string('%Y%m%d%H' if hourly else '%Y%m%d'))))


def dwd(ctx):
    every = tuple(sorted(DWD)) + OTHER
    some = ('QUALITAETS_NIVEAU', 'LUFTTEMPERATUR', 'REL_FEUCHTE')
    rain = ('NIEDERSCHLAGSHOEHE', 'DAMPFDRUCK2')
    wind = ('WINDGESCHWINDIGKEIT', 'WINDRICHTUNG')
    for hourly in (False, True):
        for tail in (True, False):
            for names in ((every,), (some,), ((some, rain), (some, rain, wind))[hourly]):
                r = Run(ctx.repo)
                srcs = 'ABC'[:len(names)]
                r.i.files = dict(('%s.txt' % x, dwd_file(x, hourly, ns, tail)) for x, ns in zip(srcs, names))
                r.i.files['meta.txt'] = File('M', [], [Column(n, 'text', col('M', n.strip()))
                                                       for n in ('Stations_id', ' Stationsname', 'Breite', 'Laenge', 'von', 'bis')], ';', True)
                files = s('A.txt') if len(names) == 1 else r.i.alloc(Lst([s('%s.txt' % x) for x in srcs]))
                kw = {'mode': s('h' if hourly else 'd')}
                if not tail:
                    from ..suite import b
                    kw['skip_last'] = b(False)
                r.call('read_dwd', [files, s('meta.txt')], kw)
                what = construct(ctx.repo, 'read_dwd', 'mode=%r, skip_last=%r, %d files, %d fields' % ('h' if hourly else 'd', tail, len(names), len(names[0])))
                v = r.obj() if r.value is not None else None
                data = v.items[1] if isinstance(v, Tup) and len(v.items) == 2 else v
                parts = [(dwd_axis(x, hourly), dwd_values(x, ns)) for x, ns in zip(srcs, names)]
                if len(parts) == 1:
                    axis, want = parts[0]
                else:
                    axis = mk('ax', 'joined', 'outer', *[a for a, vs in parts])
                    want = [(n, app('joinedrow', a, t)) for a, vs in parts for n, t in vs]
                frame(ctx, r, what, data, axis, want)


def frame(ctx, r, what, value, axis, want):
    """the frame has exactly the wanted columns on the wanted axis"""
    ctx.count('fields', len(want))
    wrong = [e for e in r.i.events if e.kind == 'misread']
    if wrong:
        ctx.violated('file read with options that do not fit its format', what, '%s at %s' % (wrong[0].data, wrong[0].where))
        return
    if r.error or r.dead and r.i.undecided:
        ctx.undecided(what, why_unknown(r))
        return
    if r.dead:
        ctx.violated('call always fails', what, r.dead + ': ' + '; '.join(str(e.data) for e in r.i.events if e.kind in ('badcall', 'nokey'))[:200])
        return
    o = r.i.deref(value)
    if not isinstance(o, Frm) or o.open:
        ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(o).__name__)
        return
    if not labels(ctx, r, what, o.axis, axis):
        return
    got = dict(o.cols)
    names = [n for n, t in want]
    if sorted(map(str, got)) != sorted(names):
        if r.i.undecided:
            ctx.undecided(what, why_unknown(r))
        else:
            ctx.violated('variables under other names', what, 'columns %s instead of %s' % (', '.join(sorted(map(str, got))), ', '.join(sorted(names))))
        return
    for n, t in want:
        x = got[n]
        if t.op == 'app' and t.args[0] in ('outerrow', 'joinedrow') and x.op == 'app' and x.args[0] == t.args[0] and len(x.args) == len(t.args):
            for k, (p, q) in enumerate(zip(x.args[1:], t.args[1:])):
                if q.op == 'ax':
                    labels(ctx, r, '%s: %s' % (what, n), p, q)
                else:
                    judge(ctx, UNIT, '%s: %s of file %d' % (what, n, k), '%s: %s' % (what, n), p, q)
            continue
        judge(ctx, UNIT, '%s: %s' % (what, n), '%s: %s' % (what, n), x, t)


def labels(ctx, r, what, got, want):
    """same records and same time stamps"""
    if got is want or str(got) == str(want):
        ctx.holds(what + ': time stamps')
        return True
    ks = got.args[0], want.args[0]
    if ks == ('labelled', 'labelled') and got.args[1] is want.args[1]:
        return judge(ctx, 'other time stamps', what + ': time stamps', what, got.args[2], want.args[2])
    if ks[0] == ks[1] and ks[0] in ('stacked', 'joined') and len(got.args) == len(want.args):
        rest = [(p, q) for p, q in zip(got.args[1:], want.args[1:])]
        if all(isinstance(p, str) == isinstance(q, str) for p, q in rest):
            bad = [(p, q) for p, q in rest if isinstance(p, str) and p != q]
            if bad:
                ctx.violated('records are lost when files are combined', what, '%s join instead of %s join' % bad[0])
                return False
            return all([labels(ctx, r, what, p, q) for p, q in rest if not isinstance(p, str)])
    if r.i.undecided or 'opq' in repr(got):
        ctx.undecided(what, why_unknown(r) or 'time stamps not resolved: %s' % (got,))
    else:
        ctx.violated('other records or time stamps', what, 'result lies on %s instead of %s' % (got, want))
    return False


def aggregated(ctx):
    sets = [('temp', 'precip', 'glob', 'hum', 'wind', 'ssd'), (), ('ssd', 'wind', 'other')]
    sets += [(c,) for c in sets[0]]
    sets += [tuple(c for c in sets[0] if c != d) for d in sets[0]]
    for names in sets:
        if not names:
            continue
        r = Run(ctx.repo)
        r.call('daily_from_hourly', [r.closed('O', O, names)])
        want = []
        for n in names:
            x = col('O', n)
            if n == 'temp':
                want += [('temp', dagg('mean', O, x)), ('tmin', dagg('min', O, x)), ('tmax', dagg('max', O, x))]
            elif n == 'hum':
                want += [('hum', dagg('mean', O, x)), ('hum_min', dagg('min', O, x)), ('hum_max', dagg('max', O, x))]
            elif n in ('glob', 'wind'):
                want.append((n, dagg('mean', O, x)))
            elif n == 'precip':
                want.append((n, dagg('sum', O, x)))
            elif n == 'ssd':
                want.append((n, div(dagg('sum', O, x), num(60))))
        ctx.count('fields', len(want))
        what = construct(ctx.repo, 'daily_from_hourly', 'columns ' + ', '.join(names))
        if r.error or r.dead and r.i.undecided:
            ctx.undecided(what, why_unknown(r))
            continue
        if r.dead:
            ctx.violated('call always fails', what, r.dead)
            continue
        o = r.obj()
        if not isinstance(o, Frm) or o.open:
            ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(o).__name__)
            continue
        if not check_axis(ctx, 'result is not by day', what + ': days', what, o.axis, ax('span', ax('days', O)), r):
            continue
        got = dict(o.cols)
        if sorted(map(str, got)) != sorted(n for n, t in want):
            ctx.violated('variables under other names', what, 'columns %s' % ', '.join(sorted(map(str, got))))
            continue
        for n, t in want:
            judge(ctx, 'aggregated in another way', '%s: %s' % (what, n), '%s: %s' % (what, n), got[n], t)
