"""C25: gap detection, day trimming and interpolation treat every record correctly."""
from .. import terms as TM
from ..agree import compare
from ..axes import sameaxis
from ..suite import Run, X, axioms, b, construct, judge, n, param, s, why_unknown
from ..terms import NANT, ONE, T, ZERO, add, app, cmp, col, g, land, lnot, num, show, sub, subterms, sym, tim, tkey
from ..values import Dct, Frm, S, Ser, ax, lam_apply

SPAN = ax('span', X)
OPTIONS = [{}, {'print_all': b(True)}, {'verbose': b(False)}, {'print_max': n(0)}, {'print_max': param('print_max')},
           {'print_all': param('print_all'), 'verbose': param('verbose'), 'print_max': param('print_max')}]
REF = '''
def reference(frame, step):
    count = 0
    for k in range(1, len(frame.index)):
        if (frame.index[k] - frame.index[k - 1]).total_seconds() != step:
            count = count + 1
    return count
out = reference(frame, step)
'''


def run(ctx):
    gaps(ctx)
    trimming(ctx)
    placing(ctx)
    interpolating(ctx)
    ctx.floor('gap counts', 24)
    ctx.floor('trimmed data sets', 50)
    ctx.floor('interpolated data sets', 12)


def data(r, gran):
    name = {'H': 'O', 'M': 'F', 'D': 'X'}[gran]
    return r.closed(name, ax('in', name, gran), ('temp', 'precip', 'wind'))


# gaps ------------------------------------------------------------------------

def gaps(ctx):
    for gran, kind in (('H', 'hourly'), ('M', 'five-minute'), ('D', 'daily')):
        for step, st in (('any step', param('step')), ('3600 s', n(3600)), ('86400 s', n(86400))):
            ref = Run(ctx.repo)
            ref.script(REF, frame=data(ref, gran), step=st)
            want = ref.get('out')
            for opts in OPTIONS:
                cfg = '%s data, %s%s' % (kind, step, ''.join(', %s' % k for k in sorted(opts)))
                what = construct(ctx.repo, 'detect_gaps', cfg)
                ctx.count('gap counts')
                r = Run(ctx.repo)
                r.call('detect_gaps', [data(r, gran), st], opts)
                if r.error or not isinstance(want, S):
                    ctx.undecided(what, r.error or 'reference not resolved')
                elif r.dead:
                    if r.i.undecided:
                        ctx.undecided(what, r.dead)
                    else:
                        ctx.violated('gap detection always fails', what, r.dead)
                elif isinstance(r.value, S):
                    counted(ctx, r, what, r.value.t, want.t)
                else:
                    ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(r.value).__name__)


def trim(t):
    """sums without the leading terms that are zero"""
    def f(u):
        if u.op == 'app' and u.args[0] == 'sum' and u.args[1] is ZERO and u.args[3].op == 'lam':
            if tkey(lam_apply(u.args[3], ZERO)) == tkey(ZERO):
                return app('sum', ONE, u.args[2], u.args[3])
        return None
    return TM.rewrite(t, f)


def sums(t):
    return [u for u in subterms(t) if u.op == 'app' and u.args[0] == 'sum']


def counted(ctx, r, what, got, want):
    rule = 'counted gaps differ from the pairs of records at another distance'
    left = [u for u in subterms(got) if u.op == 'app' and u.args[0] == 'after']
    if left:
        bad = [c for e in r.i.events if e.kind == 'loop' for c in e.data.breaks
               if any(u.op == 'app' and u.args[0] == 'elem' or u.op == 'sym' and u is not e.data.var for u in subterms(c))]
        if bad:
            return ctx.violated(rule, what, 'the loop over the records ends early if %s' % show(bad[0])[:200])
        want = trim(want)
        loops = {str(e.data.var.args[0]): e.data for e in r.i.events if e.kind == 'loop'}
        if got.op == 'app' and got.args[0] == 'after' and str(got.args[1]) in loops and len(sums(want)) == 1:
            sm = loops[str(got.args[1])]
            init, p, nx = sm.names.get(got.args[2], (None, None, None))
            if init is not None:
                ref = sums(want)[0]
                same = tkey(sub(sm.hi, sm.lo)) == tkey(sub(ref.args[2], ref.args[1]))
                k = add(sm.var, sub(ref.args[1], sm.lo)) if same else sm.var
                v = compare(sub(nx, p), lam_apply(ref.args[3], k), [cmp('ge', sm.var, sm.lo), cmp('ge', k, ONE), cmp('lt', sm.var, sm.hi)])
                if v.kind == 'ne':
                    return ctx.violated(rule, what, 'one pair adds %s' % show(sub(nx, p))[:200])
        return ctx.undecided(what, 'count not resolved')
    got, want = trim(got), trim(want)
    if tkey(got) == tkey(want):
        return ctx.holds(what)
    a, c = sums(got), sums(want)
    if len(a) == len(c) == 1 and a[0].args[3].op == c[0].args[3].op == 'lam':
        a, c = a[0], c[0]
        k = sym('i', 'int', 'nonan')
        x, y = lam_apply(a.args[3], k), lam_apply(c.args[3], k)
        lo, hi = a.args[1], a.args[2]
        if lo is not c.args[1] and tkey(sub(hi, lo)) == tkey(sub(c.args[2], c.args[1])):
            # the same pairs, numbered differently
            x = lam_apply(a.args[3], add(k, sub(lo, c.args[1])))
            lo, hi = c.args[1], c.args[2]
        for u, w, part in ((lo, c.args[1], 'first'), (hi, c.args[2], 'last')):
            ver = compare(u, w, axioms(u, w))
            if ver.kind != 'eq':
                if ver.kind == 'ne':
                    return ctx.violated(rule, what, 'the %s pair considered is another one: %s instead of %s' % (part, show(u), show(w)))
                return ctx.undecided(what, ver.why)
        ver = compare(x, y, [cmp('ge', k, ONE), cmp('lt', k, hi)])
        if ver.kind == 'ne':
            return ctx.violated(rule, what, ver.why)
        if ver.kind == 'unknown':
            return ctx.undecided(what, ver.why)
        got = TM.rewrite(got, lambda u: c if u is a else None)
    elif any(u.op == 'app' and u.args[0] in ('count', 'agg', 'aggvalue', 'shiftpos', 'moved') for u in subterms(got)):
        return ctx.undecided(what, 'counted with vectors')
    elif not a and not r.i.undecided:
        return judge(ctx, rule, what, what, got, want)
    judge(ctx, rule, what, what, got, want)


# trimming -----------------------------------------------------------------------

def trimming(ctx):
    for gran, kind in (('H', 'hourly'), ('M', 'five-minute')):
        for shift in [None] + list(range(24)) + [-1, 24, 30]:
            cfg = '%s data, %s' % (kind, 'default' if shift is None else 'shift=%d' % shift)
            what = construct(ctx.repo, 'drop_incomplete_days', cfg)
            ctx.count('trimmed data sets')
            r = Run(ctx.repo)
            r.call('drop_incomplete_days', [data(r, gran)], {} if shift is None else {'shift': n(shift)})
            first = shift if shift is not None and 0 <= shift <= 23 else 0
            base = ax('in', {'H': 'O', 'M': 'F'}[gran], gran)
            trimmed(ctx, r, what, base, bound(gran, first), bound(gran, (first - 1) % 24))


def bound(gran, hour):
    c = cmp('eq', tim('hour'), num(hour))
    return c if gran == 'H' else land(c, cmp('eq', tim('minute'), ZERO))


def runs(cond):
    """the runs of which a condition is the union; None unless it is one"""
    if cond.op == 'or':
        out = []
        for c in cond.args:
            x = runs(c)
            if x is None:
                return None
            out += x
        return out
    if cond.op == 'app' and cond.args[0] == 'run':
        return [cond]
    return None


def trimmed(ctx, r, what, base, first, last):
    rule = 'removed records differ from the incomplete days'
    if r.error:
        return ctx.undecided(what, r.error)
    o = r.obj() if r.value is not None else None
    if r.dead:
        if r.i.undecided:
            return ctx.undecided(what, r.dead)
        return ctx.violated('day trimming always fails', what, r.dead)
    if not isinstance(o, Frm) or r.i.undecided:
        return ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(o).__name__)
    for c in ('temp', 'precip', 'wind'):
        t = dict(o.cols).get(c)
        if t is not col({'O': 'O', 'F': 'F'}[base.args[1]], c):
            return ctx.undecided(what, 'column %s is %s' % (c, t if t is None else show(t)))
    if o.axis is base:
        return ctx.violated(rule, what, 'nothing is removed')
    if o.axis.args[0] != 'filter' or o.axis.args[1] is not base:
        return ctx.undecided(what, 'result lies on %s' % show(o.axis))
    got = runs(lnot(o.axis.args[2]))
    if got is None:
        return ctx.undecided(what, 'records kept: %s' % show(o.axis.args[2]))
    for direction, name, want in (('down', 'first full day', first), ('up', 'last full day', last)):
        mine = [u for u in got if u.args[2] == direction]
        if len(mine) > 1:
            return ctx.undecided(what, 'several groups of records are removed')
        if not mine:
            return ctx.violated(rule, what, 'records beyond the %s are kept' % name)
        u = mine[0]
        if len(u.args) > 4:
            n_ = app('len', base)
            lo, hi = u.args[4:]
            wl, wh = (ZERO, n_) if direction == 'down' else (add(n_, num(-1)), num(-1))
            for x, y in ((lo, wl), (hi, wh)):
                v = compare(x, y, axioms(x, y))
                if v.kind == 'ne':
                    return ctx.violated(rule, what, 'search for the %s covers the records from %s to %s only' % (name, show(lo), show(hi)))
                if v.kind != 'eq':
                    return ctx.undecided(what, v.why)
        v = compare(g(u.args[3], ONE, ZERO), g(want, ONE, ZERO), [])
        if v.kind == 'ne':
            return ctx.violated(rule, what, 'the %s is found by %s instead of %s' % (name, show(u.args[3]), show(want)))
        if v.kind != 'eq':
            return ctx.undecided(what, v.why)
    ctx.holds(what)


# interpolation --------------------------------------------------------------------

HOURS = [{'T7': 7, 'T14': 14, 'T19': 19}, {'T14': 14, 'T7': 7}, {'T7': 0}, {'T7': 0, 'T14': 23}, {'T19': 6, 'T14': 7, 'T7': 18}]


def placed(hours):
    t = NANT
    for c, h in hours.items():
        t = g(cmp('eq', tim('hour'), num(h)), col('X', c), t)
    return t


def hourdict(r, hours):
    return r.i.alloc(Dct(tuple((c, n(h)) for c, h in hours.items())))


def within(term):
    """every time of the hourly index belongs to the days of the data"""
    out = []
    for u in subterms(term):
        if u.op == 'app' and u.args[0] == 'inspan':
            out.append(u)
    return list(dict.fromkeys(out))


def placing(ctx):
    for hours in HOURS:
        what = construct(ctx.repo, 'prepare_interpolation_data', ', '.join('%s=%d' % x for x in hours.items()))
        ctx.count('interpolated data sets')
        r = Run(ctx.repo)
        r.call('prepare_interpolation_data', [r.closed('X', SPAN, ('T7', 'T14', 'T19')), hourdict(r, hours)])
        o = usable(ctx, r, what, r.obj() if r.value is not None else None)
        if o is None:
            continue
        if not sameaxis(o.axis, ax('hourly', SPAN)):
            ctx.undecided(what, 'result lies on %s' % show(o.axis))
            continue
        judge(ctx, 'daily value not at its hour', what, what, o.t, placed(hours), within(o.t))


def usable(ctx, r, what, o):
    if r.error:
        return ctx.undecided(what, r.error)
    if r.dead:
        if r.i.undecided:
            return ctx.undecided(what, r.dead)
        return ctx.violated('interpolation always fails', what, r.dead)
    if not isinstance(o, Ser):
        return ctx.undecided(what, why_unknown(r) or 'result is a %s' % type(o).__name__)
    return o


DEFAULT = {'method': s('linear'), 'limit': n(24), 'limit_direction': s('both')}
CALLS = [{}, {'method': s('cubic')}, {'limit': param('limit')}, {'limit_direction': s('forward')},
         {'method': s('polynomial'), 'order': n(2), 'limit': n(3)}, {'limit_direction': s('backward'), 'limit_area': s('inside')},
         {'method': param('method'), 'limit': param('limit'), 'limit_direction': param('direction')}]


def interpolating(ctx):
    rule = 'interpolation options are not passed on'
    for opts in CALLS:
        for hours in (HOURS[0], HOURS[3]):
            cfg = '%s; %s' % (', '.join('%s=%d' % x for x in hours.items()), ', '.join(sorted(opts)) or 'defaults')
            what = construct(ctx.repo, 'Station.interpolate', cfg)
            ctx.count('interpolated data sets')
            r = Run(ctx.repo)
            r.i.facts.update(freq='D', resolution=True, increasing=True)
            text = 'st = melodist.Station(data_daily=daily)\nout = st.interpolate(hours%s)' % ''.join(', %s=opt_%s' % (k, k) for k in opts)
            r.script(text, daily=r.closed('X', SPAN, ('T7', 'T14', 'T19')), hours=hourdict(r, hours),
                     **{'opt_' + k: v for k, v in opts.items()})
            out = r.get('out') if not (r.dead or r.error) else None
            o = usable(ctx, r, what, out)
            if o is None:
                continue
            t = o.t
            if not (t.op == 'app' and t.args[0] == 'interp'):
                if TM.opaques(t) or any(u.op == 'app' and u.args[0] == 'interp' for u in subterms(t)):
                    ctx.undecided(what, 'result is %s' % show(t)[:200])
                else:
                    ctx.violated(rule, what, 'nothing is interpolated')
                continue
            if not sameaxis(t.args[1], ax('hourly', SPAN)):
                ctx.undecided(what, 'interpolated on %s' % show(t.args[1]))
                continue
            got = {u.args[0]: u.args[1] for u in t.args[3:] if isinstance(u, T) and u.op == 'kw'}
            want = {k: v.t for k, v in dict(DEFAULT, **opts).items()}
            bad = None
            for k in sorted(set(got) | set(want)):
                if k not in got or k not in want:
                    bad = 'option %s is %s' % (k, 'not given' if k not in got else 'added')
                else:
                    v = compare(got[k], want[k], [])
                    if v.kind == 'ne':
                        bad = 'option %s is %s instead of %s' % (k, show(got[k]), show(want[k]))
                    elif v.kind != 'eq':
                        bad = bad or ''
            if bad:
                ctx.violated(rule, what, bad)
            elif bad == '':
                ctx.undecided(what, 'options not resolved')
            else:
                judge(ctx, 'daily value not at its hour', what, what, t.args[2], placed(hours), within(t.args[2]))
