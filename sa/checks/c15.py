"""C15: calibrated statistics and data columns reach the right parameters."""
from .. import station
from ..agree import compare
from ..axes import mask
from ..station import HOURLY, columns, jobs
from ..suite import Run, S, X, b, judge, judge_cond, n, on_axis, param, s, why_unknown
from ..terms import NONE, app, cmp, col, g, land, lor, num, rewrite, show, subterms, tim
from ..values import Arr, Dct, Frm, Lst, Obj, Ser, Tab, Tup, ax
from .c13 import alive, state

O = ax('in', 'O', 'H')
GROUPS = {'all': [range(1, 13)], 'seasonal': [(3, 4, 5), (6, 7, 8), (9, 10, 11), (12, 1, 2)], 'monthly': [(m,) for m in range(1, 13)]}


def run(ctx):
    results(ctx)
    cascade(ctx)
    calibration(ctx)
    radiation(ctx)
    precipitation(ctx)
    ctx.floor('station methods', 40)
    ctx.floor('calibrated values', 100)


def results(ctx):
    """each method stores the result for its own variable and leaves everything else alone"""
    for method, opts, column, want, assume in jobs():
        ctx.count('station methods')
        what = 'melodist/station.py Station.%s(%s)' % (method, opts)
        r = station.station(ctx.repo)
        if not alive(ctx, r, what, 'station not set up'):
            continue
        was = state(r)
        r.script('st.%s(%s)' % (method, opts))
        if not alive(ctx, r, what, 'method fails'):
            continue
        now = state(r)
        f = columns(r)
        cols = dict(f.cols) if f is not None else {}
        got = cols.get(column)
        t = station.expected(want, got) if got is not None else None
        if got is None or t is None:
            ctx.undecided(what, why_unknown(r) or 'result column not resolved')
            continue
        judge(ctx, 'result made from other data or parameters', what, what, got, t, on_axis(f.axis) + assume)
        others(ctx, what, f, column, was, now)


def others(ctx, what, f, column, was, now):
    for c, t in f.cols:
        if c != column and c in HOURLY:
            judge(ctx, 'result stored in another column', '%s: column %s' % (what, c), what, t, col('T', c), on_axis(f.axis))
    if set(dict(f.cols)) != set(HOURLY) and not f.open:
        ctx.violated('hourly columns changed', what, ', '.join(map(str, dict(f.cols))))
    a, b_ = [sorted(x for x in y if x[0] != '_data_disagg') for y in (was, now)]
    if a == b_:
        ctx.holds(what + ': rest of the station')
    else:
        diff = [x for x in b_ if x not in a] or [x for x in a if x not in b_]
        ctx.violated('method changes other parts of the station', what, str(diff[0])[:200])


def cascade(ctx):
    """each season is disaggregated with its own days and statistics"""
    what = "melodist/station.py Station.disaggregate_precipitation(method='cascade')"
    for groups in ([(12, 1, 2), (3, 4, 5), (6, 7, 8), (9, 10, 11)], [tuple(range(1, 13))], [(7,), (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12)]):
        ctx.count('station methods')
        name = '%s with %d seasons' % (what, len(groups))
        r = station.station(ctx.repo)
        seen = []

        def subset(i, f, args, kwargs):
            env = i.bind_args(f, args, kwargs)
            a = f.node.args.args
            d, m = i.deref(env[a[0].arg]), i.deref(env[a[1].arg])
            ms = [x.t.args[0] for x in getattr(m, 'items', ()) if isinstance(x, S) and x.t.op == 'num']
            if not isinstance(d, Ser) or not ms:
                return i.unsup('seasonal subset')
            return i.alloc(Ser(ax('filter', d.axis, lor(*[cmp('eq', tim('month'), num(k)) for k in ms])), d.t, 'series', name=d.name))

        def disagg(i, f, args, kwargs):
            env = i.bind_args(f, args, kwargs)
            d = i.deref(env[f.node.args.args[0].arg])
            if not isinstance(d, Ser):
                return i.unsup('cascade input')
            seen.append((d, dict((k, i.deref(v)) for k, v in env.items())))
            return i.alloc(Ser(ax('hourly', d.axis), app('casc%d' % len(seen), d.t), 'series'))

        def tell(i, f, args, kwargs):
            return i.unsup('cascade called directly')

        r.i.overrides.update(seasonal_subset=subset, disagg_prec=disagg, disagg_prec_cascade=tell)
        env = dict(('cs%d' % k, param('cs%d' % k, 'obj')) for k in range(len(groups)))
        env.update(months=r.i.alloc(Lst(tuple(Tup([n(m) for m in gr]) for gr in groups))), sh=param('sh'))
        r.script('st.statistics.precip.update(months=months, stats=[%s])' % ', '.join('cs%d' % k for k in range(len(groups))), **env)
        was = state(r)
        r.script("st.disaggregate_precipitation(method='cascade', shift=sh, zerodiv='zero')")
        if not alive(ctx, r, name, 'method fails'):
            continue
        f = columns(r)
        now = state(r)
        if f is None or r.i.undecided or len(seen) != len(groups):
            ctx.undecided(name, why_unknown(r) or '%d calls' % len(seen))
            continue
        want = app('nothing')
        for k, (gr, (d, opts)) in enumerate(zip(groups, seen)):
            cond = lor(*[cmp('eq', tim('month'), num(m)) for m in gr])
            judge_cond(ctx, 'season covers other months', '%s: months %d' % (name, k), name, mask(d.axis), land(cond, mask(X)))
            judge(ctx, 'season made from other data', '%s: data %d' % (name, k), name, d.t, col('X', 'precip'), on_axis(d.axis))
            for o, v in (('method', s('cascade')), ('cascade_options', env['cs%d' % k]), ('shift', env['sh']), ('zerodiv', s('zero'))):
                got = opts.get(o)
                if isinstance(got, S):
                    judge(ctx, 'option not passed on', '%s: %s %d' % (name, o, k), name, got.t, v.t)
                elif got is None:
                    ctx.undecided('%s: %s %d' % (name, o, k), 'option not seen')
                else:
                    ctx.undecided('%s: %s %d' % (name, o, k), 'option not resolved')
            want = g(cond, app('casc%d' % (k + 1), col('X', 'precip')), want)
        got = dict(f.cols).get('precip')
        if got is None:
            ctx.undecided(name, 'result column not resolved')
            continue
        # a season with fewer than two days is left missing
        v = compare(got, want, on_axis(f.axis) + enough(got))
        if v.kind == 'eq':
            ctx.holds(name + ': result')
        elif v.kind == 'ne':
            ctx.violated('seasons put together wrongly', name, v.why)
        else:
            ctx.undecided(name + ': result', v.why)
        others(ctx, name, f, 'precip', was, now)


def enough(t):
    """every season has at least two days"""
    return [cmp('gt', u, num(1)) for u in subterms(t) if u.op == 'app' and u.args[0] in ('len', 'count')]


# calibration ---------------------------------------------------------------------

def prepare(ctx):
    r = Run(ctx.repo)
    r.i.facts.update(freq='D', resolution=True, increasing=True)
    env = dict(lon=param('lon'), lat=param('lat'), tz=param('tz'), obs=r.closed('O', O, HOURLY), daily=r.closed(),
               dl=r.series('S', 'daylength', X), hourly_index=r.find('hourly_index'), course=r.find('calculate_mean_daily_course_by_month'))
    r.script('ss = melodist.StationStatistics(data=obs, lon=lon, lat=lat, timezone=tz)', **env)
    return r


# what each calibration has to store, written with the package's own fitting functions
PLAIN = [
    ('calc_wind_stats()', 'wind', 'a, b, t = melodist.fit_cosine_function(obs.wind)', {'a': 'a', 'b': 'b', 't_shift': 't'}),
    ('calc_humidity_stats()', 'hum',
     'a1, a0 = melodist.calculate_dewpoint_regression(obs, return_stats=False)\nm = melodist.calculate_month_hour_precip_mean(obs)\nkr = 12',
     {'a0': 'a0', 'a1': 'a1', 'month_hour_precip_mean': 'm', 'kr': 'kr'}),
    ('calc_temperature_stats()', 'temp',
     'd = melodist.get_shift_by_data(obs.temp, lon, lat, tz)\nm = course(obs.temp, normalize=True)',
     {'max_delta': 'd', 'mean_course': 'm'}),
    ('calc_radiation_stats()', 'glob', 'm = course(obs.glob)\nd = melodist.StationStatistics()\na = d.glob.angstroem\nb = d.glob.bristcamp',
     {'mean_course': 'm', 'angstroem': 'a', 'bristcamp': 'b'}),
]


def calibration(ctx):
    for call, var, ref, names in PLAIN:
        what = 'melodist/stationstatistics.py StationStatistics.%s' % call
        r = prepare(ctx)
        if not alive(ctx, r, what, 'statistics not set up'):
            continue
        was = rest(r, var)
        r.script('ss.%s' % call)
        if not alive(ctx, r, what, 'calibration fails'):
            continue
        if rest(r, var) == was:
            ctx.holds(what + ': other statistics')
        else:
            ctx.violated('calibration changes other statistics', what)
        r.script(ref)
        r.script('\n'.join('got_%s = ss.%s.%s\nwant_%s = %s' % (x, var, x, x, y) for x, y in names.items()))
        if not alive(ctx, r, what, 'calibrated value missing'):
            continue
        for x in sorted(names):
            ctx.count('calibrated values')
            agree(ctx, r, '%s: %s' % (what, x), r.get('got_' + x), r.get('want_' + x))


def rest(r, var):
    """all other statistics"""
    o = r.get('ss')
    out = []
    for k, v in sorted(o.fields, key=str):
        if k != var:
            x = r.i.deref(v)
            fs = x.fields if isinstance(x, Obj) else x.items if isinstance(x, Dct) else None
            out.append((k, str(x) if fs is None else str(sorted((str(a), str(r.i.deref(c))) for a, c in fs))))
    return out


def fitof(r, t):
    """(fit, number of the parameter) when the term is one fitted parameter"""
    for e in r.i.events:
        if e.kind == 'fit':
            for k, p in enumerate(e.data['params']):
                if p.t is t:
                    return e.data, k
    return None


def agree(ctx, r, what, got, want):
    if isinstance(got, S) and isinstance(want, S):
        return agree_t(ctx, r, what, got.t, want.t)
    pairs = None
    if isinstance(got, Ser) and isinstance(want, Ser):
        pairs = [('', got.t, want.t)]
        axes_ = [(got.axis, want.axis)]
    elif isinstance(got, Tab) and isinstance(want, Tab):
        pairs = [('', got.t, want.t)]
        axes_ = [(got.rows, want.rows), (got.cols, want.cols)]
    elif isinstance(got, Frm) and isinstance(want, Frm) and not got.open and not want.open:
        axes_ = [(got.axis, want.axis)]
        if [c for c, t in got.cols] != [c for c, t in want.cols]:
            return ctx.violated('stored frame has other columns', what)
        pairs = [(' %s' % c, t, dict(want.cols)[c]) for c, t in got.cols]
    if pairs is None:
        if isinstance(got, S) and got.t is NONE:
            return ctx.violated('calibrated value not stored', what)
        return ctx.undecided(what, why_unknown(r) or 'value not resolved')
    if any(a is not b_ for a, b_ in axes_):
        return ctx.undecided(what, 'index not resolved') if axes_[0][0].args[0] in ('labelled', 'anon') else \
            ctx.violated('stored value has another index', what, '%s instead of %s' % (show(axes_[0][0]), show(axes_[0][1])))
    for c, a, b_ in pairs:
        judge(ctx, 'stored value comes from other data', what + c, what, a, b_, on_axis(axes_[0][0]))


def agree_t(ctx, r, what, got, want):
    a, b_ = fitof(r, got), fitof(r, want)
    if b_ is None:
        return judge(ctx, 'stored value comes from other data', what, what, got, want)
    if a is None:
        if any(u.op == 'opq' for u in subterms(got)):
            return ctx.undecided(what, why_unknown(r) or 'value not resolved')
        if got.op in ('num', 'none', 'sym') or not any(fitof(r, u) for u in subterms(got)):
            return ctx.violated('stored value is not the fitted parameter', what, show(got))
        return judge(ctx, 'stored value is not the fitted parameter', what, what, got, want)
    (f, k), (f2, k2) = a, b_
    if k != k2:
        return ctx.violated('fitted parameter stored under another name', what, 'parameter %d instead of %d' % (k + 1, k2 + 1))
    if f is f2:
        return ctx.holds(what)
    if f['kind'] != f2['kind'] or len(f['params']) != len(f2['params']):
        return ctx.violated('parameter of another fit', what)
    m = dict((p.t, q.t) for p, q in zip(f['params'], f2['params']))
    sub = lambda t: rewrite(t, lambda u: m.get(u, u))
    ok = []
    for part in ('model', 'y', 'x'):
        x, y = r.i.deref(f.get(part)), r.i.deref(f2.get(part))
        if isinstance(x, Ser) and isinstance(y, Ser):
            ok.append(judge(ctx, 'fitted to other data', '%s: %s' % (what, part), what, sub(x.t), y.t, on_axis(y.axis)))
            ok.append(judge_cond(ctx, 'fitted on other records', '%s: records of %s' % (what, part), what, sub(mask(x.axis)), mask(y.axis)))
        elif isinstance(x, S) and isinstance(y, S):
            ok.append(judge(ctx, 'fitted to other data', '%s: %s' % (what, part), what, sub(x.t), y.t))
    if not ok:
        ctx.undecided(what, 'data of the fit not resolved')


def radiation(ctx):
    """parameters of every month belong to the fit over its own season"""
    for how, groups in GROUPS.items():
        what = 'melodist/stationstatistics.py StationStatistics.calc_radiation_stats(how=%r)' % how
        r = prepare(ctx)
        r.script('ss.calc_radiation_stats(data_daily=daily, day_length=dl, how=%r)\nang, bri, mc = ss.glob.angstroem, ss.glob.bristcamp, ss.glob.mean_course' % how)
        if not alive(ctx, r, what, 'calibration fails'):
            continue
        r.script('''
            def pick(s, months):
                return s[pd.Series(s.index.month).isin(months).values]
            pot = melodist.potential_radiation(hourly_index(daily.index), lon, lat, tz).resample('D').mean()
            rad = obs.glob.resample('D').mean()
            both = pd.DataFrame(data=dict(tmin=daily.tmin, tmax=daily.tmax, pot=pot, rad=rad)).dropna(how='any')
            ''')
        for k, gr in enumerate(groups):
            ms = '[%s]' % ', '.join(map(str, gr))
            r.script('a%d, b%d = melodist.fit_angstroem_params(pick(daily.ssd, %s), pick(dl, %s), pick(pot, %s), pick(rad, %s))' % (k, k, ms, ms, ms, ms))
            r.script('c%d, d%d = melodist.fit_bristow_campbell_params(pick(both.tmin, %s), pick(both.tmax, %s), pick(both.pot, %s), pick(both.rad, %s))' % (k, k, ms, ms, ms, ms))
        if not alive(ctx, r, what, 'reference fails'):
            continue
        for name, frame, refs in (('angstroem', 'ang', (('a', 'a'), ('b', 'b'))), ('bristcamp', 'bri', (('a', 'c'), ('c', 'd')))):
            o = r.get(frame)
            if not isinstance(o, Frm):
                ctx.undecided('%s: %s' % (what, name), why_unknown(r) or 'not a frame')
                continue
            cols = dict(o.cols)
            if list(cols) != [c for c, _ in refs] and not o.open:
                ctx.violated('stored frame has other columns', '%s: %s' % (what, name))
                continue
            for k, gr in enumerate(groups):
                for m in gr:
                    for c, ref in refs:
                        ctx.count('calibrated values')
                        here = '%s: %s.%s of month %d' % (what, name, c, m)
                        w = r.get('%s%d' % (ref, k))
                        if not isinstance(w, S):
                            ctx.undecided(here, 'reference not resolved')
                            continue
                        agree_t(ctx, r, here, at(cols[c], m), w.t)
        mc = r.get('mc')
        r.script('want = course(obs.glob)')
        agree(ctx, r, what + ': mean_course', mc, r.get('want'))
    # without sunshine duration or day length the default parameters stay
    for cut, opts, keep in (("no ssd", "data_daily=daily.drop('ssd', axis=1), day_length=dl", 'angstroem'), ('no day length', 'data_daily=daily', 'angstroem'),
                            ('no temperature', "data_daily=daily.drop('tmin', axis=1), day_length=dl", 'bristcamp')):
        what = 'melodist/stationstatistics.py StationStatistics.calc_radiation_stats with %s' % cut
        r = prepare(ctx)
        r.script('ss.calc_radiation_stats(%s)\ngot = ss.glob.%s\nwant = melodist.StationStatistics().glob.%s' % (opts, keep, keep))
        if alive(ctx, r, what, 'calibration fails'):
            ctx.count('calibrated values')
            agree(ctx, r, what, r.get('got'), r.get('want'))


def at(t, m):
    """value of a month"""
    return rewrite(t, lambda u: num(m) if u is tim('key0') else u)


def precipitation(ctx):
    for opts, want in (('', dict(avg_stats=b(True), percentile=n(50))), ('months=ms, avg_stats=av, percentile=pc', None)):
        what = 'melodist/stationstatistics.py StationStatistics.calc_precipitation_stats(%s)' % opts
        r = prepare(ctx)
        seen = []

        def stub(i, f, args, kwargs):
            env = i.bind_args(f, args, kwargs)
            seen.append((f, env))
            return S(param('casc', 'obj').t)

        r.i.overrides['build_casc'] = stub
        env = dict(av=param('av'), pc=param('pc'), ms=r.i.alloc(Lst((Tup([n(12), n(1), n(2)]), Tup([n(k) for k in range(3, 12)])))))
        was = rest(r, 'precip')
        r.script('ss.calc_precipitation_stats(%s)\nmo, st = ss.precip.months, ss.precip.stats\nown = ss.data' % opts, **env)
        if not alive(ctx, r, what, 'calibration fails'):
            continue
        if len(seen) != 1:
            v = r.get('st')
            if not seen and not r.i.undecided and isinstance(v, S) and v.t is NONE:
                ctx.violated('parameter not stored', what, 'precip.stats is None after the calibration')
            else:
                ctx.undecided(what, '%d calls of build_casc' % len(seen))
            continue
        f, got = seen[0]
        names = [a.arg for a in f.node.args.args]
        d = r.i.deref(got[names[0]])
        ctx.count('calibrated values', 4)
        if isinstance(d, Frm):
            judge(ctx, 'fitted to other data', what + ': data', what, dict(d.cols).get('precip', NONE), col('O', 'precip'), on_axis(d.axis))
        else:
            ctx.undecided(what + ': data', 'not resolved')
        for k, v in (want or dict(avg_stats=env['av'], percentile=env['pc'])).items():
            if isinstance(got.get(k), S):
                judge(ctx, 'option not passed on', '%s: %s' % (what, k), what, got[k].t, v.t)
            else:
                ctx.undecided('%s: %s' % (what, k), 'not seen')
        mon, ref = listed(r, got.get('months')), [tuple(range(1, 13))] if want else [(12, 1, 2), tuple(range(3, 12))]
        stored = listed(r, r.i.st.frames['mod:client'].get('mo'))
        for x, rule in ((mon, 'fitted on other seasons'), (stored, 'seasons stored differ from the fitted ones')):
            if x is None:
                ctx.undecided(what + ': months', 'not resolved')
            elif x == ref:
                ctx.holds(what + ': months')
            else:
                ctx.violated(rule, what, '%s instead of %s' % (x, ref))
        t = r.get('st')
        if isinstance(t, S):
            judge(ctx, 'stored value comes from other data', what + ': stats', what, t.t, param('casc', 'obj').t)
        else:
            ctx.undecided(what + ': stats', 'not resolved')
        if rest(r, 'precip') == was:
            ctx.holds(what + ': other statistics')
        else:
            ctx.violated('calibration changes other statistics', what)


def listed(r, v):
    o = r.i.deref(v)
    if isinstance(o, S) and o.t is NONE:
        return 'nothing'
    if not isinstance(o, (Lst, Tup)):
        return None
    out = []
    for x in o.items:
        y = r.i.deref(x)
        cells = [c.t for c in y.items if isinstance(c, S)] if isinstance(y, (Lst, Tup)) else list(y.cells) if isinstance(y, Arr) else None
        if cells is None or any(c.op != 'num' for c in cells):
            return None
        out.append(tuple(int(c.args[0]) for c in cells))
    return out
