"""C07: arguments are not modified, assigned data are stored privately, separate objects share nothing.

Every public function and method is analysed with identifiable arguments.  The heap of the analysis
knows which operation changes an object in place (items, columns, in-place operators and methods, views
of arrays, names of a shared index).  An argument, or anything reachable from it, that was changed in
place is a violation, and so is an argument that can be reached from the object it was assigned to.
"""
from .. import calls, cascspec
from ..interp import AltH
from ..report import parallel
from ..station import jobs, station
from ..suite import HX, M, X, Run, b, construct, n, param, s
from ..values import Alt, Arr, Dct, Frm, Idx, Lst, Obj, Ref, S, Ser, Tab, Tup, ax

O = ax('in', 'O', 'H')
F = ax('in', 'F', 'M')
OBS = ('temp', 'precip', 'glob', 'hum', 'wind', 'ssd')
DAY = ('tmean', 'tmin', 'tmax', 'precip', 'glob', 'ssd', 'hum', 'wind')


def children(v):
    if isinstance(v, Alt):
        return [v.a, v.b]
    if isinstance(v, AltH):
        return [v.a, v.b]
    if isinstance(v, (Tup, Lst)):
        return list(v.items)
    if isinstance(v, Dct):
        return [x for k, x in v.items]
    if isinstance(v, Obj):
        f = v.fields
        return list(f.values()) if isinstance(f, dict) else [x[-1] for x in f]
    return []


def reach(i, v, out):
    """heap objects that can be reached from a value"""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.id in out or x.id not in i.st.heap:
                continue
            out[x.id] = i.st.heap[x.id]
            x = i.st.heap[x.id]
        todo += children(x)
    return out


def mutable(o):
    return isinstance(o, (Ser, Frm, Tab, Arr, Lst, Dct, Obj))


def state(o):
    """what a user can see of a heap object"""
    if isinstance(o, Ser):
        return ('ser', o.axis, o.t, o.name)
    if isinstance(o, Frm):
        return ('frm', o.axis, tuple(o.cols), o.open)
    if isinstance(o, Tab):
        return ('tab', o.rows, o.cols, o.t)
    if isinstance(o, Arr):
        return ('arr', o.shape, tuple(o.cells))
    return None


class Inputs(object):
    """arguments before a call"""

    def __init__(self, r, named):
        self.r = r
        self.named = {}
        for k, v in named.items():
            d = reach(r.i, v, {})
            if d:
                self.named[k] = d
        self.mark = len(r.i.touched)

    def changes(self):
        """(argument, what, where) of every change since"""
        i = self.r.i
        for n, what, where in i.touched[self.mark:]:
            label = None
            if isinstance(n, tuple):
                label = n[1]
            else:
                o = i.st.heap.get(n)
                if isinstance(o, Idx) or isinstance(o, Ser) and o.kind == 'index':
                    label = i.ixof.get(n, n)
            for k, d in self.named.items():
                if label is not None:
                    if n in d or any(isinstance(o, (Ser, Frm, Tab, Idx)) and i.ixof.get(m, m) == label for m, o in d.items()):
                        yield k, what + ' of the index', where
                elif n in d:
                    a, z = state(d[n]), state(i.st.heap.get(n))
                    if a is not None and a == z and what != 'name' and 'in place' not in what and not any(u.endswith(' at ' + where) for u in i.undecided):
                        continue
                    yield k, what, where


def owner(P, where):
    rel, _, line = where.rpartition(':')
    best = None
    if line.isdigit():
        for f in P.funcs.values():
            if f.mod.rel == rel and f.node.lineno <= int(line) <= f.node.end_lineno and (best is None or f.node.lineno >= best.node.lineno):
                best = f
    return '%s %s' % (rel, best.qual if best else 'module')


def conclude(ctx, r, inputs, what):
    from ..syn import Program
    ctx.count('calls')
    found = list(inputs.changes())
    for arg, how, where in found:
        P = Program(ctx.repo)
        ctx.violated('argument modified', '%s: argument %s' % (owner(P, where), arg), '%s changes %s in place at %s (%s)' % (what, arg, where, how))
    if found:
        return
    # other constructs without a model return new objects
    hard = [u for u in r.i.undecided if 'while loop' in u or 'too many exits' in u or 'attribute assignment' in u or 'item assignment on' in u]
    if r.error:
        ctx.undecided(what, r.error)
    elif hard:
        ctx.undecided(what, '; '.join(hard[:3]))
    else:
        if r.i.undecided:
            ctx.count('calls with results of unmodelled library functions')
        ctx.holds(what)


def names(args, kwargs):
    out = {'%d' % (k + 1): v for k, v in enumerate(args)}
    out.update(kwargs)
    return out


def table():
    three = lambda r: [r.closed('T', ax('span', X), ('T7', 'T14')), r.i.alloc(Dct((('T7', n(7)), ('T14', n(14)))))]
    head = lambda r: r.i.alloc(Dct((('station_id', s('x')), ('altitude', n(100)))))
    loc = lambda: [param('lon'), param('lat'), param('tz')]
    ser = lambda r, *cs: [r.series('O', c, O) for c in cs]
    days = lambda r, *cs: [r.series('X', c, X) for c in cs]
    return [
        ('detect_gaps', 'hourly', lambda r: [r.closed('O', O, OBS), n(3600)]),
        ('detect_gaps', 'options', lambda r: ([r.closed('F', F, OBS), n(300)], dict(print_all=b(True), verbose=b(True), print_max=n(3)))),
        ('drop_incomplete_days', 'hourly', lambda r: [r.closed('O', O, OBS)]),
        ('drop_incomplete_days', 'shift', lambda r: ([r.closed('F', F, OBS)], dict(shift=n(7)))),
        ('prepare_interpolation_data', 'two columns', three),
        ('daily_from_hourly', 'all columns', lambda r: [r.closed('O', O, OBS)]),
        ('hourly_index', 'days', lambda r: [r.index(X)]),
        ('hourly_index', 'gaps filled', lambda r: ([r.index(X)], dict(fill_gaps=b(True)))),
        ('distribute_equally', 'mean', lambda r: days(r, 'wind')),
        ('distribute_equally', 'sum', lambda r: (days(r, 'precip'), dict(divide=b(True)))),
        ('vapor_pressure', 'series', lambda r: ser(r, 'temp', 'hum')),
        ('dewpoint_temperature', 'series', lambda r: ser(r, 'temp', 'hum')),
        ('linregress', 'series', lambda r: ser(r, 'temp', 'hum')),
        ('linregress', 'statistics', lambda r: (ser(r, 'temp', 'hum'), dict(return_stats=b(True)))),
        ('get_sun_times', 'location', lambda r: [r.index(X)] + loc()),
        ('calculate_mean_daily_course_by_month', 'series', lambda r: ser(r, 'temp')),
        ('calculate_mean_daily_course_by_month', 'normalized', lambda r: (ser(r, 'temp'), dict(normalize=b(True)))),
        ('fit_cosine_function', 'series', lambda r: ser(r, 'wind')),
        ('get_shift_by_data', 'series', lambda r: ser(r, 'temp') + loc()),
        ('calculate_dewpoint_regression', 'frame', lambda r: [r.closed('O', O, OBS)]),
        ('calculate_dewpoint_regression', 'statistics', lambda r: ([r.closed('O', O, OBS)], dict(return_stats=b(True)))),
        ('calculate_month_hour_precip_mean', 'frame', lambda r: [r.closed('O', O, OBS)]),
        ('potential_radiation', 'dates', lambda r: [r.index(O)] + loc()),
        ('potential_radiation', 'split', lambda r: ([r.index(O)] + loc(), dict(split=b(True)))),
        ('angstroem', 'numbers', lambda r: days(r, 'ssd', 'dl', 'pot') + [param('a'), param('b')]),
        ('angstroem', 'series', lambda r: days(r, 'ssd', 'dl', 'pot') + [r.bykeys('pa', 1), r.bykeys('pb', 1)]),
        ('bristow_campbell', 'numbers', lambda r: days(r, 'tmin', 'tmax', 'pot') + [param('a'), param('c')]),
        ('bristow_campbell', 'series', lambda r: days(r, 'tmin', 'tmax', 'pot') + [r.bykeys('pa', 1), r.bykeys('pc', 1)]),
        ('fit_angstroem_params', 'series', lambda r: days(r, 'ssd', 'dl', 'pot', 'obs')),
        ('fit_bristow_campbell_params', 'series', lambda r: days(r, 'tmin', 'tmax', 'pot', 'obs')),
        ('write_smet', 'hourly', lambda r: [param('file', 'str'), r.closed('O', O, OBS), head(r)]),
        ('write_smet', 'hourly, all columns', lambda r: ([param('file', 'str'), r.closed('O', O, OBS), head(r)], dict(check_nan=b(False)))),
        ('write_smet', 'daily', lambda r: ([param('file', 'str'), r.closed('X', X, DAY), head(r)], dict(mode=s('d'), check_nan=b(False)))),
        ('write_smet', 'daily, checked', lambda r: ([param('file', 'str'), r.closed('X', X, DAY), head(r)], dict(mode=s('d'), nodata_value=n(-99)))),
        ('read_dwd', 'list of files', lambda r: ([r.i.alloc(Lst((param('f1', 'str'), param('f2', 'str')))), param('meta', 'str')], dict(mode=s('h')))),
        ('seasonal_subset', 'frame', lambda r: [r.closed('O', O, OBS)]),
        ('seasonal_subset', 'months', lambda r: ([r.closed('O', O, OBS)], dict(months=r.i.alloc(Lst((n(12), n(1), n(2))))))),
        ('aggregate_precipitation', 'frame', lambda r: [r.closed('O', O, ('precip',))]),
        ('build_casc', 'averaged', lambda r: [r.closed('O', O, ('precip',))]),
        ('build_casc', 'levels', lambda r: ([r.closed('O', O, ('precip',))], dict(avg_stats=b(False)))),
        ('build_casc', 'seasons', lambda r: ([r.closed('O', O, ('precip',))], dict(months=seasons(r)))),
    ]


def seasons(r):
    return r.i.alloc(Lst(tuple(r.i.alloc(Lst(tuple(n(m) for m in ms))) for ms in ((12, 1, 2), (3, 4, 5, 6, 7, 8, 9, 10, 11)))))


def function(ctx, kind, k):
    if kind == 'disagg':
        f, cfg, make, need, near = list(calls.disaggregations())[k]
        r = Run(ctx.repo)
        args, kw = make(r)
    else:
        f, cfg, make = table()[k]
        r = Run(ctx.repo)
        r.i.facts['cut'] = f in ('aggregate_precipitation', 'build_casc')
        a = make(r)
        args, kw = a if isinstance(a, tuple) else (a, {})
    i = Inputs(r, names(args, kw))
    r.call(f, args, kw)
    conclude(ctx, r, i, construct(ctx.repo, f, cfg))


CALIBRATIONS = ('calc_wind_stats()', 'calc_humidity_stats()', 'calc_temperature_stats()', 'calc_precipitation_stats()', 'calc_radiation_stats()',
                'calc_precipitation_stats(months=months, avg_stats=False, percentile=70)', 'calc_precipitation_stats(months=months)',
                "calc_radiation_stats(data_daily=daily, day_length=dl, how='all')", "calc_radiation_stats(data_daily=daily, day_length=dl, how='monthly')",
                "calc_radiation_stats(data_daily=daily, day_length=dl, how='seasonal')", 'to_json()')


def private(ctx, r, holder, user, what, skip=()):
    """nothing the user holds can be reached from the holder"""
    if r.error or r.dead:
        ctx.undecided(what, r.error or r.dead)
        return
    mine = reach(r.i, r.i.st.frames['mod:client'].get(holder), {})
    bad = False
    for k, v in user.items():
        for m, o in reach(r.i, v, {}).items():
            if m in mine and mutable(o) and m not in skip:
                ctx.violated('user data kept by reference', what, '%s is reachable from %s after %s' % (k, holder, what))
                bad = True
                break
    if not bad:
        ctx.holds('%s keeps nothing of the caller' % what)


def statistics(ctx, call):
    r = Run(ctx.repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True, cut=True)
    user = dict(obs=r.closed('O', O, OBS), daily=r.closed(), dl=r.series('S', 'daylength', X), months=seasons(r))
    r.script('ss = melodist.StationStatistics(data=obs, lon=lon, lat=lat, timezone=tz)', lon=param('lon'), lat=param('lat'), tz=param('tz'), **user)
    i = Inputs(r, user)
    i.mark = 0
    r.script('ss.' + call)
    what = 'melodist/stationstatistics.py StationStatistics.' + call
    conclude(ctx, r, i, what)
    private(ctx, r, 'ss', user, what)


def stations(ctx, k):
    method, options, column, want, assume = list(jobs())[k]
    r = station(ctx.repo)
    fr = r.i.st.frames['mod:client']
    # data handed over, and the parameters stored in the statistics, which the method may use but not change
    user = {x: fr[x] for x in ('daily', 'pot', 'master', 'mhp', 'md', 'mc', 'gc', 'ang', 'bri') if x in fr}
    i = Inputs(r, user)
    r.script('own = st.data_daily\nstat = st.statistics')
    i.named['the daily data of the station'] = reach(r.i, r.i.st.frames['mod:client'].get('own'), {})
    i.named['the statistics of the station'] = reach(r.i, r.i.st.frames['mod:client'].get('stat'), {})
    r.script('st.%s(%s)' % (method, options))
    what = 'melodist/station.py Station.%s(%s)' % (method, options)
    conclude(ctx, r, i, what)
    private(ctx, r, 'st', {x: user[x] for x in ('daily', 'pot', 'master') if x in user}, what)


ASSIGN = (
    ('melodist/station.py Station(data_daily)', 'h = melodist.Station(data_daily=daily)', 'daily', 'complete'),
    ('melodist/station.py Station(data_daily, location)', 'h = melodist.Station(id=1, name="n", lon=lon, lat=lat, timezone=tz, data_daily=daily)', 'daily', 'complete'),
    ('melodist/station.py Station.data_daily', 'h = melodist.Station(lon=lon, lat=lat, timezone=tz)\nh.data_daily = daily', 'daily', 'complete'),
    ('melodist/station.py Station.data_daily, gaps', 'h = melodist.Station(lon=lon, lat=lat, timezone=tz)\nh.data_daily = daily', 'daily', 'gaps'),
    ('melodist/station.py Station.data_daily, again', 'h = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=other)\nh.data_daily = daily', 'daily other', 'complete'),
    ('melodist/stationstatistics.py StationStatistics(data)', 'h = melodist.StationStatistics(data=obs)', 'obs', 'hourly'),
    ('melodist/stationstatistics.py StationStatistics.data', 'h = melodist.StationStatistics(lon=lon, lat=lat, timezone=tz)\nh.data = obs', 'obs', 'hourly'),
)


def assign(ctx, k):
    what, text, held, kind = ASSIGN[k]
    r = Run(ctx.repo)
    r.i.facts.update(resolution=True, increasing=True)
    if kind != 'gaps':
        r.i.facts['freq'] = 'D'
    user = dict(daily=r.closed(), other=r.closed('Y'), obs=r.closed('O', O, OBS))
    i = Inputs(r, user)
    r.script(text, lon=param('lon'), lat=param('lat'), tz=param('tz'), **user)
    conclude(ctx, r, i, what)
    private(ctx, r, 'h', {x: user[x] for x in held.split()}, what)


PAIRS = (
    ('two stations', 'a = melodist.Station()\nc = melodist.Station()'),
    ('two stations with the same data', 'a = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=daily)\nc = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=daily)'),
    ('two statistics', 'a = melodist.StationStatistics()\nc = melodist.StationStatistics()'),
    ('two statistics with the same data', 'a = melodist.StationStatistics(data=obs)\nc = melodist.StationStatistics(data=obs)'),
    ('two statistics calibrated with the same data',
     'a = melodist.StationStatistics(data=obs, lon=lon, lat=lat, timezone=tz)\nc = melodist.StationStatistics(data=obs, lon=lon, lat=lat, timezone=tz)\n'
     'a.calc_temperature_stats()\nc.calc_temperature_stats()\na.calc_humidity_stats()\nc.calc_humidity_stats()\na.calc_wind_stats()\nc.calc_wind_stats()'),
    ('two cascade statistics', 'a = melodist.cascade.CascadeStatistics()\nc = melodist.cascade.CascadeStatistics()'),
    ('two filled cascade statistics', 'a = melodist.cascade.CascadeStatistics()\na.fill_with_sample_data()\nc = melodist.cascade.CascadeStatistics()\nc.fill_with_sample_data()'),
    ('copies of parameters', 'from melodist.util.bunch import Bunch\nimport copy\na = Bunch(x=[1, 2], y={"k": 1})\nc = copy.deepcopy(a)'),
    ('parameters and their shallow copy', 'from melodist.util.bunch import Bunch\na = Bunch(x=1, y=2)\nc = a.copy()'),
    ('parameters and copy.copy', 'from melodist.util.bunch import Bunch\nimport copy\na = Bunch(x=1, y=2)\nc = copy.copy(a)'),
    ('copies of statistics', 'import copy\na = melodist.StationStatistics(data=obs)\na.wind.update(a=[1], b=2)\nc = copy.deepcopy(a)'),
    ('cascade statistics read from a dictionary', 'd = dict(p01=np.zeros((2, 4)), p10=np.zeros((2, 4)), pxx=np.zeros((2, 4)), wxx=np.zeros((7, 2, 4)), '
     'threshold=np.zeros(5), percentile=50)\na = melodist.cascade.CascadeStatistics.from_dict(d)\nc = melodist.cascade.CascadeStatistics.from_dict(d)'),
    ('the dictionary and the cascade statistics read from it', 'a = dict(p01=np.zeros((2, 4)), p10=np.zeros((2, 4)), pxx=np.zeros((2, 4)), wxx=np.zeros((7, 2, 4)), '
     'threshold=np.zeros(5), percentile=50)\nc = melodist.cascade.CascadeStatistics.from_dict(a)'),
    ('sums of cascade statistics', 'a = melodist.cascade.CascadeStatistics()\nc = melodist.cascade.CascadeStatistics()\na + c'),
)


def pair(ctx, k):
    what, text = PAIRS[k]
    r = Run(ctx.repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True)
    r.script(text, lon=param('lon'), lat=param('lat'), tz=param('tz'), daily=r.closed(), obs=r.closed('O', O, OBS))
    ctx.count('pairs of objects')
    if r.error or r.dead:
        ctx.undecided(what, r.error or r.dead)
        return
    fr = r.i.st.frames['mod:client']
    a, c = (reach(r.i, fr[x], {}) for x in 'ac')
    if len(a) == 0 or len(c) == 0:
        ctx.undecided(what, 'objects not resolved')
        return
    if ' + c' in text:
        again = Run(ctx.repo)
        again.script(text.replace('a + c', ''))
        i = Inputs(again, dict(c=again.i.st.frames['mod:client']['c']))
        again.script('a + c')
        conclude(ctx, again, i, 'melodist/cascade.py CascadeStatistics.__add__')
    both = [m for m in a if m in c and mutable(a[m])]
    if not both:
        ctx.holds('%s share nothing' % what)
        return
    where = path(r.i, fr['a'], both[0]) or '?'
    ctx.violated('shared state', 'melodist %s: %s' % (what, where), '%s: both refer to the same %s as %s' % (what, type(a[both[0]]).__name__, where))


def path(i, v, target):
    """how an object is reached"""
    todo, seen = [('', v)], set()
    while todo:
        p, x = todo.pop(0)
        if isinstance(x, Ref):
            if x.id == target:
                return p.lstrip('.') or 'the object'
            if x.id in seen:
                continue
            seen.add(x.id)
            x = i.st.heap[x.id]
        if isinstance(x, Obj):
            f = x.fields
            todo += [(p + '.' + str(k), y) for k, y in (f.items() if isinstance(f, dict) else [z[:2] for z in f])]
        elif isinstance(x, Dct):
            todo += [(p + '.' + str(k), y) for k, y in x.items]
        elif isinstance(x, (Lst, Tup)):
            todo += [(p + '[%d]' % k, y) for k, y in enumerate(x.items)]
        elif isinstance(x, (Alt, AltH)):
            todo += [(p, x.a), (p, x.b)]
    return None


def cascade(ctx, k):
    cfg = cascspec.CONFIGS[k]
    r, user, text = cascspec.prepared(ctx.repo, *cfg)
    i = Inputs(r, user)
    r.script(text)
    conclude(ctx, r, i, construct(ctx.repo, 'disagg_prec_cascade', cascspec.label(*cfg)))


def one(ctx, kind, k):
    {'disagg': function, 'table': function}.get(kind, lambda *a: None)(ctx, kind, k)
    if kind == 'stat':
        statistics(ctx, CALIBRATIONS[k])
    elif kind == 'station':
        stations(ctx, k)
    elif kind == 'assign':
        assign(ctx, k)
    elif kind == 'pair':
        pair(ctx, k)
    elif kind == 'cascade':
        cascade(ctx, k)


def run(ctx):
    work = [('cascade', k) for k in range(len(cascspec.CONFIGS))]
    work += [('stat', k) for k in range(len(CALIBRATIONS))]
    work += [('station', k) for k in range(len(list(jobs())))]
    work += [('disagg', k) for k in range(len(list(calls.disaggregations())))]
    work += [('table', k) for k in range(len(table()))]
    work += [('assign', k) for k in range(len(ASSIGN))]
    work += [('pair', k) for k in range(len(PAIRS))]
    parallel(ctx, one, work)
    ctx.floor('calls', 150)
    ctx.floor('pairs of objects', len(PAIRS))
