"""pandas model: methods, aggregation, grouping."""
from .values import *
from . import terms as TM
from .axes import *
from fractions import Fraction

from .lib import clsname, Shape, isbool
from .libpd_ops import boolish

AGG = ('mean', 'sum', 'min', 'max', 'std', 'var', 'median', 'count', 'first', 'last', 'idxmax', 'idxmin', 'prod', 'any', 'all', 'nunique', 'size')
BINMETH = {'add': 'Add', 'sub': 'Sub', 'subtract': 'Sub', 'mul': 'Mult', 'multiply': 'Mult', 'div': 'Div', 'divide': 'Div', 'truediv': 'Div',
           'pow': 'Pow', 'mod': 'Mod', 'floordiv': 'FloorDiv'}
CMPMETH = {'lt': 'lt', 'gt': 'gt', 'le': 'le', 'ge': 'ge', 'eq': 'eq', 'ne': 'ne'}
RBIN = {'radd': 'Add', 'rsub': 'Sub', 'rmul': 'Mult', 'rdiv': 'Div', 'rtruediv': 'Div', 'rpow': 'Pow'}


def arg(args, kwargs, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kwargs.get(name, default)


def dagg(how, axis, t):
    """aggregate of the entries of the current day"""
    if how in ('mean', 'min', 'max', 'median', 'first', 'last') and dayconst(t):
        return t
    if how == 'sum' and dayconst(t) and axis.args[0] in ('hourly', 'hourlyfill'):
        return g(isnull(t), ZERO, mul(num(24), t))
    return app('dagg', how, axis, t)


class Groups(object):
    # -- reductions ---------------------------------------------------------------------

    def reduce(self, o, how, args, kwargs):
        i = self.i
        t, axis = o.t, o.axis
        if how in ('any', 'all'):
            c = t if boolish(t) else lnot(cmp('eq', t, ZERO))
            if how == 'any':
                return S(cmp('gt', self.count(axis, c), ZERO), 'bool')
            return S(cmp('eq', self.count(axis, lnot(c)), ZERO), 'bool')
        if how == 'count':
            return S(self.count(axis, lnot(isnull(t))), 'int')
        if how == 'sum' and boolish(t):
            return S(self.count(axis, t), 'int')
        if how == 'size':
            return S(self.lib.length(axis), 'int')
        if how in ('min', 'max') and timelike(axis) and t is self.tst(axis):
            return S(self.tsend(axis, 'first' if how == 'min' else 'last'), 'ts')
        extra = []
        for k, v in sorted(kwargs.items()):
            if k in ('axis', 'skipna', 'dtype', 'numeric_only') and isinstance(v, S) and v.t in (ZERO, TRUE, NONE, FALSE):
                if k == 'skipna' and v.t is FALSE:
                    extra.append('noskip')
                continue
            extra.append('%s=%s' % (k, v.t if isinstance(v, S) else '?'))
        if how in ('mean', 'sum', 'min', 'max') and axis.args[0] == 'dayof':
            return S(dagg(how, axis.args[1], t))
        if how in ('min', 'max', 'mean', 'median', 'first', 'last') and not extra and not self.varying(t):
            return S(t)
        if how == 'sum' and t is NANT and i.facts.get('counts') is not None:
            k = self.lib.intval(kwargs['min_count']) if 'min_count' in kwargs else 0
            return S(ZERO if not k else NANT)
        if o.kind in ('array', 'index') and how in ('mean', 'sum', 'min', 'max', 'std', 'var') and o.kind == 'array':
            extra = [] if not extra else extra
        if how in ('argmax', 'argmin', 'cumsum', 'diff'):
            return i.unsup(how)
        if i.facts.get('counts') is not None and how in ('sum', 'mean', 'min', 'max', 'std', 'median') and 'noskip' not in extra:
            least = kwargs.get('min_count')
            k = self.lib.intval(least) if least is not None else 0 if how == 'sum' else 2 if how == 'std' else 1
            if k is not None and len(extra) == (1 if least is not None else 0):
                return S(g(cmp('ge', self.count(axis, lnot(isnull(t))), num(k)), app('aggvalue', how, axis, t), NANT))
        return S(app('agg', how, axis, t, *[string(x) for x in extra]))

    def varying(self, t):
        return any(u.op in ('col', 'tim') or u.op == 'app' for u in subterms(t))

    def count(self, axis, c):
        if c is FALSE:
            return ZERO
        if c is TRUE:
            return self.axlen(axis)
        known = self.i.facts.get('counts')
        if known:
            for t, k in known.items():
                if c is lnot(isnull(t)):
                    return num(k)
                if c is isnull(t):
                    return sub(self.axlen(axis), num(k))
        return app('count', axis, c)

    # -- methods ------------------------------------------------------------------------

    def call_method(self, ref, o, name, args, kwargs):
        i = self.i
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Opq):
                if isinstance(kwargs.get('inplace'), S) and kwargs['inplace'].t is TRUE or name in ('update', 'insert', 'pop'):
                    self.lib.mutate(ref, name)
                return a
        if name == 'update' and isinstance(o, (Frm, Ser)):
            self.lib.mutate(ref, name)
        if isinstance(o, Idx):
            m = getattr(self, 'idx_' + name, None)
        elif isinstance(o, Ser):
            m = getattr(self, 'ser_' + name, None)
        elif isinstance(o, Frm):
            m = getattr(self, 'frm_' + name, None)
        else:
            m = getattr(self, 'tab_' + name, None)
        inplace = kwargs.get('inplace')
        if isinstance(inplace, S) and inplace.t is TRUE:
            kwargs = {k: v for k, v in kwargs.items() if k != 'inplace'}
            r = self.call_method(ref, o, name, args, kwargs)
            ro = self.d(r)
            self.lib.mutate(ref, name + ' in place')
            if isinstance(r, Opq) or type(ro) is not type(o):
                if isinstance(o, Frm):
                    i.store(ref, o.with_(cols=tuple((n, opq('in place')) for n, t in o.cols)))
                elif isinstance(o, (Ser, Tab)):
                    i.store(ref, o.with_(t=opq('in place')))
                return S(NONE, 'none')
            if isinstance(o, Frm):
                i.store(ref, o.with_(axis=ro.axis, cols=ro.cols, open=ro.open))
            elif isinstance(o, Ser):
                i.store(ref, o.with_(axis=ro.axis, t=ro.t))
            return S(NONE, 'none')
        kwargs = {k: v for k, v in kwargs.items() if k != 'inplace'}
        if m is not None:
            r = m(ref, o, args, kwargs)
            if name in ('isnull', 'isna', 'notnull', 'notna', 'apply', 'map'):
                return self.sharing(r, ref)
            if isinstance(r, Ref) and name == 'diff':
                i.ixof.pop(r.id, None)
            return r
        if isinstance(o, (Ser, Idx)):
            if name in AGG:
                return self.reduce(self.vec(ref) if isinstance(o, Idx) else o, name, args, kwargs)
            if name in BINMETH and args:
                return self.lib.binop(BINMETH[name], ref, args[0])
            if name in RBIN and args:
                return self.lib.binop(RBIN[name], args[0], ref)
            if name in CMPMETH and args:
                return self.lib.compare(CMPMETH[name], ref, args[0])
        if isinstance(o, Frm):
            if name in BINMETH and args:
                return self.lib.binop(BINMETH[name], ref, args[0])
            x = arg(args, kwargs, 0, 'axis')
            if name in AGG and isinstance(x, S) and x.t in (ONE, string('columns')):
                return self.across(o, name, kwargs)
            if name in AGG and isinstance(x, S) and x.t in (ZERO, string('index')):
                args, kwargs = args[1:], {k: v for k, v in kwargs.items() if k != 'axis'}
            if name in AGG and not o.open and (not args):
                return self.new(Ser(ax('keys', 'columns', *[string(n) for n, t in o.cols]),
                                    self.bycol(o, lambda t: self.reduce(Ser(o.axis, t, 'series'), name, [], kwargs).t), 'series'))
            if name in AGG:
                return self.new(Ser(ax('keys', 'columns', string(o.open or '')), app('colagg', name, string(o.open or ''), tim('key0'),
                                    *[string('%s=%s' % (k, show_arg(v))) for k, v in sorted(kwargs.items())]), 'series'))
        if isinstance(o, Tab):
            if name in BINMETH and args:
                return self.lib.binop(BINMETH[name], ref, args[0])
        return i.unsup('%s.%s' % (clsname(o), name))

    def across(self, o, name, kwargs):
        """aggregate over the columns of each row"""
        ts = [t for n, t in o.cols]
        if o.open or not ts or set(kwargs) - {'axis'}:
            return self.i.unsup('%s over the columns' % name)
        if name in ('any', 'all') and all(boolish(t) for t in ts):
            t = lor(*ts) if name == 'any' else land(*ts)
        elif name in ('sum', 'mean', 'count'):
            n = ZERO
            for u in ts:
                n = add(n, g(isnull(u), ZERO, ONE))
            t = ZERO
            for u in ts:
                t = add(t, g(isnull(u), ZERO, u))
            t = t if name == 'sum' else n if name == 'count' else g(land(*[isnull(u) for u in ts]), NANT, div(t, n))
        elif name in ('min', 'max'):
            t = ts[0]
            for u in ts[1:]:
                t = g(isnull(t), u, g(isnull(u), t, g(cmp('lt' if name == 'min' else 'gt', u, t), u, t)))
        else:
            return self.i.unsup('%s over the columns' % name)
        return self.new(Ser(o.axis, t, 'series'))

    def bycol(self, o, f):
        t = None
        for n, u in reversed(o.cols):
            v = f(u)
            t = v if t is None else g(cmp('eq', tim('key0'), string(n)), v, t)
        return t if t is not None else NANT

    # index methods

    def idx_min(self, ref, o, args, kwargs):
        return S(self.first(o.axis), 'ts') if timelike(o.axis) else self.i.unsup('min')

    def idx_max(self, ref, o, args, kwargs):
        return S(self.last(o.axis), 'ts') if timelike(o.axis) else self.i.unsup('max')

    def idx_normalize(self, ref, o, args, kwargs):
        if gr(o.axis) == 'D':
            return self.new(Idx(o.axis))
        return self.new(Ser(o.axis, DAY0, 'index'))

    def idx_isin(self, ref, o, args, kwargs):
        return self.isin(ref, args[0])

    def idx_equals(self, ref, o, args, kwargs):
        x = self.d(args[0])
        if isinstance(x, Idx):
            if sameaxis(x.axis, o.axis):
                return S(TRUE, 'bool')
            return S(app('sameindex', *sorted([o.axis, x.axis], key=repr)), 'bool')
        return S(FALSE, 'bool')

    def idx_copy(self, ref, o, args, kwargs):
        return self.new(Idx(o.axis))

    def idx_to_series(self, ref, o, args, kwargs):
        return self.new(Ser(o.axis, self.tst(o.axis), 'series'))

    def idx_to_numpy(self, ref, o, args, kwargs):
        return self.new(Ser(o.axis, self.tst(o.axis), 'array'))

    def idx_tolist(self, ref, o, args, kwargs):
        return ref
    idx_to_list = idx_tolist
    idx_to_pydatetime = idx_tolist
    idx_view = idx_copy

    def idx_rename(self, ref, o, args, kwargs):
        return self.new(Idx(o.axis))

    def idx_union(self, ref, o, args, kwargs):
        x = self.d(args[0])
        if isinstance(x, Idx):
            a, b = o.axis, x.axis
            if implies(mask(a), mask(b)):
                return self.new(Idx(b))
            if implies(mask(b), mask(a)):
                return self.new(Idx(a))
            if repr(a) > repr(b):
                a, b = b, a
            return self.new(Idx(ax('union', a, b)))
        return self.i.unsup('union')

    idx_append = idx_union

    def idx_intersection(self, ref, o, args, kwargs):
        x = self.d(args[0])
        if isinstance(x, Idx) and gr(x.axis) == gr(o.axis):
            keep = [c for c in conj(mask(x.axis)) if not implies(mask(o.axis), c)]
            return self.new(Idx(ax('filter', o.axis, land(*keep))))
        return self.i.unsup('intersection')

    def idx_difference(self, ref, o, args, kwargs):
        x = self.d(args[0])
        if isinstance(x, Idx) and gr(x.axis) == gr(o.axis):
            keep = [c for c in conj(mask(x.axis)) if not implies(mask(o.axis), c)]
            return self.new(Idx(ax('filter', o.axis, lnot(land(*keep)))))
        return self.i.unsup('difference')

    def idx_sort_values(self, ref, o, args, kwargs):
        return self.new(Idx(o.axis))

    idx_unique = idx_sort_values
    idx_drop_duplicates = idx_sort_values

    def idx_strftime(self, ref, o, args, kwargs):
        f = arg(args, kwargs, 0, 'date_format')
        return self.new(Ser(o.axis, app('strftime', self.tst(o.axis), f.t), 'index'))

    def idx_floor(self, ref, o, args, kwargs):
        f = arg(args, kwargs, 0, 'freq')
        if isinstance(f, S) and f.t.op == 'str' and f.t.args[0] in ('D', '1D', 'd', '24h'):
            return self.idx_normalize(ref, o, args, kwargs)
        return self.i.unsup('floor')

    def idx_shift(self, ref, o, args, kwargs):
        n = self.lib.intval(arg(args, kwargs, 0, 'periods', S(ONE)))
        f = arg(args, kwargs, 1, 'freq')
        if n is not None and isinstance(f, S) and f.t.op == 'str' and f.t.args[0] == 'D':
            return self.new(Idx(self.shiftax(o.axis, n)))
        return self.i.unsup('index shift')

    def idx_tz_localize(self, ref, o, args, kwargs):
        return self.i.unsup('time zones')

    def idx_map(self, ref, o, args, kwargs):
        return self.i.loops.map_over(ref, lambda x: self.i.call(args[0], [x], {}))

    def idx_get_loc(self, ref, o, args, kwargs):
        return self.i.unsup('get_loc')

    # series methods

    def ser_copy(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None, view=None))

    def ser_to_numpy(self, ref, o, args, kwargs):
        return self.new(Ser(o.axis, o.t, 'array'))

    def ser_to_list(self, ref, o, args, kwargs):
        return self.new(Ser(o.axis, o.t, 'list'))
    ser_tolist = ser_to_list

    def ser_clip(self, ref, o, args, kwargs):
        return self.lib.clip(ref, args, kwargs)

    def ser_round(self, ref, o, args, kwargs):
        a = list(args) + ([kwargs['decimals']] if 'decimals' in kwargs else [])
        return self.lib.map1(lambda t: self.lib.round_t(t, a), ref)

    def ser_astype(self, ref, o, args, kwargs):
        return self.lib.astype(ref, args, kwargs)

    def ser_abs(self, ref, o, args, kwargs):
        return self.lib.map1(lambda t: fn('abs', t), ref)

    def ser_isnull(self, ref, o, args, kwargs):
        return self.lib.map1(isnull, ref)
    ser_isna = ser_isnull

    def ser_notnull(self, ref, o, args, kwargs):
        return self.lib.map1(lambda t: lnot(isnull(t)), ref)
    ser_notna = ser_notnull

    def ser_fillna(self, ref, o, args, kwargs):
        v = arg(args, kwargs, 0, 'value')
        if v is None:
            return self.i.unsup('fillna')
        t = self.value_on(v, o.axis)
        if boolish(o.t):
            return self.new(o.with_(origin=None, view=None))
        if o.t.op == 'g' and boolish(o.t.args[2]) and o.t.args[1].op == 'nan':
            return self.new(o.with_(t=g(o.t.args[0], t, o.t.args[2]), origin=None, view=None))
        if o.t.op == 'g' and boolish(o.t.args[1]) and o.t.args[2].op == 'nan':
            return self.new(o.with_(t=g(o.t.args[0], o.t.args[1], t), origin=None, view=None))
        return self.new(o.with_(t=g(isnull(o.t), t, o.t), origin=None, view=None))

    def ser_where(self, ref, o, args, kwargs):
        c = args[0] if args else kwargs.get('cond')
        v = arg(args, kwargs, 1, 'other', S(NANT))
        ct = self.boolkey(c, o.axis)
        if ct is None:
            return self.i.unsup('where')
        return self.new(o.with_(t=g(ct, o.t, self.value_on(v, o.axis)), origin=None, view=None))

    def ser_mask(self, ref, o, args, kwargs):
        c = args[0] if args else kwargs.get('cond')
        v = arg(args, kwargs, 1, 'other', S(NANT))
        ct = self.boolkey(c, o.axis)
        if ct is None:
            return self.i.unsup('mask')
        return self.new(o.with_(t=g(ct, self.value_on(v, o.axis), o.t), origin=None, view=None))

    def ser_combine_first(self, ref, o, args, kwargs):
        x = self.d(args[0])
        if isinstance(x, Ser):
            na = self.join(o.axis, x.axis)
            if na is not None:
                a, b = self.on(o.t, o.axis, na), self.on(x.t, x.axis, na)
                return self.new(Ser(na, g(isnull(a), b, a), 'series'))
        return self.i.unsup('combine_first')

    def ser_between(self, ref, o, args, kwargs):
        lo, hi = arg(args, kwargs, 0, 'left'), arg(args, kwargs, 1, 'right')
        inc = kwargs.get('inclusive', args[2] if len(args) > 2 else None)
        mode = inc.t.args[0] if isinstance(inc, S) and inc.t.op == 'str' else 'both'
        l = 'ge' if mode in ('both', 'left') else 'gt'
        h = 'le' if mode in ('both', 'right') else 'lt'
        a = self.lib.compare(l, ref, lo)
        b = self.lib.compare(h, ref, hi)
        return self.lib.binop('BitAnd', a, b)

    def ser_isin(self, ref, o, args, kwargs):
        return self.isin(ref, args[0])

    def ser_dropna(self, ref, o, args, kwargs):
        m = lnot(isnull(o.t))
        return self.new(Ser(ax('filter', o.axis, m), o.t, o.kind, name=o.name))

    def ser_sort_index(self, ref, o, args, kwargs):
        if kwargs or args:
            a = arg(args, kwargs, 99, 'ascending', S(TRUE))
            if not (isinstance(a, S) and a.t is TRUE):
                return self.new(o.with_(axis=ax('rev', o.axis), origin=None, view=None))
        a = o.axis.args[1] if o.axis.args[0] in ('rev', 'unsorted') else o.axis
        return self.new(o.with_(axis=a, origin=None, view=None))

    def ser_reset_index(self, ref, o, args, kwargs):
        drop = kwargs.get('drop')
        if isinstance(drop, S) and drop.t is TRUE:
            return self.new(Ser(ax('range', self.lib.length(o.axis)), self.pushelem(o.t, o.axis, tim('pos')), 'series'))
        if gr(o.axis) == 'K':
            return self.gframe(o)
        return self.i.unsup('reset_index')

    def ser_rename(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None, view=None))
    ser_rename_axis = ser_rename
    ser_squeeze = ser_rename
    ser_infer_objects = ser_rename
    ser_to_frame0 = ser_rename

    def ser_ravel(self, ref, o, args, kwargs):
        return ref

    def ser_to_frame(self, ref, o, args, kwargs):
        n = arg(args, kwargs, 0, 'name')
        key = self.lib.dictkey(n) if n is not None else (o.name or 0)
        return self.new(Frm(o.axis, ((key, o.t),)))

    def ser_items(self, ref, o, args, kwargs):
        return Lib('items', obj=ref)
    ser_iteritems = ser_items

    def ser_keys(self, ref, o, args, kwargs):
        return self.indexof(ref, o)

    def ser_get(self, ref, o, args, kwargs):
        return self.ser_getitem(ref, o, args[0], self.d(args[0]), 'loc')

    def ser_item(self, ref, o, args, kwargs):
        return S(self.at_pos(o, ZERO))

    def ser_reindex(self, ref, o, args, kwargs):
        x = arg(args, kwargs, 0, 'index')
        return self.reindex(o, x, kwargs)

    def reindex(self, o, x, kwargs):
        i = self.i
        xd = self.d(x)
        if isinstance(xd, Ser) and isinstance(o, Ser) and gr(o.axis) in ('D', 'K') and not kwargs and xd.t is not self.tst(xd.axis) \
                and (gr(o.axis) == 'K' or timelike(xd.axis) and xd.t is DAY0 and xd.axis.args[0] != 'days'):
            # repeated labels: the entry of its label for every record
            if gr(o.axis) == 'K':
                return self.new(Ser(xd.axis, self.lookup(o, [xd.t]), 'series', view=('labels', xd.t)))
            inside = implies(mask(xd.axis), mask(o.axis)) or o.axis.args[0] == 'days' and sameaxis(o.axis.args[1], xd.axis) \
                or implies(mask(xd.axis), mask(dayaxis(o.axis)))
            return self.new(Ser(xd.axis, o.t if inside else g(mask(o.axis), o.t, NANT), 'series', view=('labels', xd.t)))
        if isinstance(xd, Ser):
            na = self.axis_from_labels(xd)
        elif isinstance(xd, Idx):
            na = xd.axis
        else:
            return i.unsup('reindex')
        method = kwargs.get('method')
        limit = kwargs.get('limit')
        fill = kwargs.get('fill_value')
        m = method.t.args[0] if isinstance(method, S) and method.t.op == 'str' else None
        if method is not None and m is None and not (isinstance(method, S) and method.t is NONE):
            return i.unsup('reindex method')
        lim = None
        if limit is not None and isinstance(limit, S) and limit.t is not NONE:
            lim = limit.t

        def conv(t):
            r = self.reindex_term(t, o.axis, na, m, lim)
            if r is None:
                i.unsup('reindex %s -> %s' % (o.axis, na))
                return opq('reindex')
            if isinstance(fill, S) and fill.t is not NANT:
                keep = [c for c in conj(mask(o.axis)) if not implies(mask(na), c)]
                r = g(land(*keep), r, fill.t) if keep else r
            return r
        if isinstance(o, Frm):
            opn = o.open
            if opn and not (sameaxis(o.axis, na)):
                return self.new(OpenView(na, o.cols, o.open, conv, self))
            return self.new(Frm(na, tuple((n, conv(t)) for n, t in o.cols), open=opn))
        return self.new(Ser(na, conv(o.t), 'series', name=o.name))

    def reindex_term(self, t, src, dst, method, limit):
        if sameaxis(src, dst):
            return t
        if method in (None,):
            return self.on(t, src, dst)
        gs, gd = gr(src), gr(dst)
        if method in ('ffill', 'pad'):
            if gs == 'D' and gd in ('H', 'M'):
                m, md = mask(src), mask(dst)
                keep = [c for c in conj(m) if not implies(md, c)]
                outside = NANT
                if keep:
                    outside = app('before', src, limit if limit is not None else NONE, t)
                r = g(land(*keep), t, outside)
                if limit is not None:
                    step = H if gd == 'H' else (dst.args[2] if dst.args[0] in ('grid', 'gridfill') else None)
                    if step is None:
                        return None
                    sec = add(mul(H, HOUR), mul(num(60), tim('minute')), tim('second')) if gd == 'M' else mul(H, HOUR)
                    c = cmp('le', div(sec, step), limit)
                    if not (limit.op == 'num' and limit.args[0] >= div(DAYSEC, step).args[0] - 1):
                        r = g(c, t, NANT)
                        if keep:
                            return None
                    elif keep and limit.args[0] <= div(DAYSEC, step).args[0] - 1:
                        r = g(land(*keep), t, NANT)
                return r
            if gs == gd:
                m, md = mask(src), mask(dst)
                keep = [c for c in conj(m) if not implies(md, c)]
                if not keep:
                    return t
                return g(land(*keep), t, app('before', src, limit if limit is not None else NONE, t))
        if method in ('bfill', 'backfill') and gs == 'D' and gd == 'H':
            return g(cmp('eq', HOUR, ZERO), t, moved(t, 1, 'c'))
        if method == 'nearest' and gs == 'D' and gd == 'H':
            return g(cmp('lt', HOUR, num(12)), t, moved(t, 1, 'c'))
        return None

    def ser_reindex_like(self, ref, o, args, kwargs):
        return self.reindex(o, self.indexof(args[0], self.d(args[0])), kwargs)

    def ser_ffill(self, ref, o, args, kwargs):
        lim = kwargs.get('limit')
        return self.fill(o, lim.t if isinstance(lim, S) and lim.t is not NONE else None)
    ser_pad = ser_ffill

    def ser_bfill(self, ref, o, args, kwargs):
        return self.i.unsup('bfill')

    def fill(self, o, limit):
        """forward fill of values given at midnight"""
        t = o.t
        grp = o.view if o.view and o.view[0] == 'group' else None
        uniq = grp is not None and DAY0 in grp[1]
        if subdaily(o.axis) and gr(o.axis) == 'H':
            x = None
            c0 = cmp('eq', HOUR, ZERO)
            if t.op == 'g' and t.args[2] is NANT and c0 in conj(t.args[0]):
                rest = land(*[c for c in conj(t.args[0]) if c is not c0])
                x = gm(rest, t.args[1])
            elif t.op == 'g' and t.args[1] is NANT and lnot(t.args[0]) is c0:
                x = t.args[2]
            if x is not None and dayconst(x):
                if limit is not None and limit.op == 'num':
                    n = limit.args[0]
                    if n < 23:
                        return self.new(o.with_(t=g(cmp('le', HOUR, limit), x, NANT), origin=None, view=None))
                    if n == 23:
                        return self.new(o.with_(t=x, origin=None, view=None))
                if uniq and limit is None:
                    return self.new(o.with_(t=x, origin=None, view=None))
                leak = app('prevvalue', o.axis, x, *( [y for y in grp[1]] if grp else []))
                return self.new(o.with_(t=g(isnull(x), leak, x), origin=None, view=None))
        r = app('ffill', o.axis, t, limit if limit is not None else NONE)
        return self.new(o.with_(t=g(isnull(t), r, t), origin=None, view=None))

    def ser_shift(self, ref, o, args, kwargs):
        i = self.i
        p = arg(args, kwargs, 0, 'periods', S(ONE))
        f = arg(args, kwargs, 1, 'freq')
        n = self.lib.intval(p)
        fill = kwargs.get('fill_value')
        if f is not None and not (isinstance(f, S) and f.t is NONE):
            sec = self.freqsec(f)
            if n is None or sec is None:
                return i.unsup('shift')
            tot = n * sec
            if tot % 86400 == 0:
                days = int(tot // 86400)
                return self.new(Ser(self.shiftax(o.axis, days), moved(o.t, -days, 'c'), 'series', name=o.name))
            return i.unsup('shift by %s s' % tot)
        if n == 0:
            return self.new(o.with_(origin=None, view=None))
        outside = fill.t if isinstance(fill, S) else NANT
        if n is not None and gr(o.axis) == 'D' and abs(n) == 1:
            c = app('islast' if n < 0 else 'isfirst', o.axis, 0)
            return self.new(Ser(o.axis, g(c, outside, self.shifted(o.t, o.axis, -n)), o.kind, name=o.name))
        if n is not None and abs(n) == 24 and o.axis.args[0] in ('hourly', 'hourlyfill'):
            dx = dayaxis(o.axis)
            c = app('islast' if n < 0 else 'isfirst', dx, 0)
            return self.new(Ser(o.axis, g(c, outside, self.shifted(o.t, dx, -n // 24)), o.kind, name=o.name))
        return self.new(Ser(o.axis, app('shiftpos', o.axis, p.t, o.t), o.kind, name=o.name))

    def ser_diff(self, ref, o, args, kwargs):
        n = arg(args, kwargs, 0, 'periods', S(ONE))
        if not (isinstance(n, S) and n.t is ONE):
            return self.i.unsup('diff')
        sh = self.ser_shift(ref, o, [S(ONE)], {})
        so = self.d(sh)
        if boolish(o.t):
            if so.t.op == 'g' and so.t.args[1] is NANT:
                prev = so.t.args[2]
                x = lor(land(o.t, lnot(prev)), land(lnot(o.t), prev))
                return self.new(Ser(o.axis, g(so.t.args[0], NANT, x), 'series'))
            return self.i.unsup('diff')
        return self.lib.binop('Sub', ref, sh)

    def ser_pct_change(self, ref, o, args, kwargs):
        return self.i.unsup('pct_change')

    def ser_cumsum(self, ref, o, args, kwargs):
        return self.i.loops.cumsum(o)

    def ser_interpolate(self, ref, o, args, kwargs):
        kw = []
        for k, v in sorted(kwargs.items()):
            kw.append(mk('kw', k, v.t if isinstance(v, S) else opq('object')))
        for j, v in enumerate(args):
            kw.append(mk('kw', ('method', 'axis', 'limit')[j], v.t if isinstance(v, S) else opq('object')))
        return self.new(Ser(o.axis, app('interp', o.axis, o.t, *sorted(kw, key=repr)), 'series', name=o.name))

    def ser_apply(self, ref, o, args, kwargs):
        f = args[0] if args else kwargs.get('func')
        if isinstance(f, Ext):
            return self.lib.call_ext(f.path, [ref], {})
        return self.elementwise(o, f)

    ser_map = ser_apply
    ser_transform = ser_apply

    def elementwise(self, o, f):
        i = self.i
        k = 'ts' if (o.t.op == 'app' and o.t.args[0] == 'dagg' and o.t.args[1] in ('idxmax', 'idxmin')) or o.t is self.tst(o.axis) and timelike(o.axis) else None
        xd = self.d(f)
        if isinstance(xd, Dct) and not xd.open:
            t = NANT
            for key, v in xd.items:
                if not isinstance(v, S):
                    return i.unsup('map')
                t = g(cmp('eq', o.t, self.lib.keyval(key).t), v.t, t)
            return self.new(o.with_(t=t, origin=None, view=None))
        if isinstance(xd, Ser) and gr(xd.axis) == 'K':
            return self.new(o.with_(t=self.lookup(xd, [o.t]), origin=None, view=None))
        r = i.call(f, [S(o.t, k)], {})
        if isinstance(r, S):
            return self.new(o.with_(t=r.t, origin=None, view=None))
        return i.unsup('apply')

    def ser_groupby(self, ref, o, args, kwargs):
        by = arg(args, kwargs, 0, 'by')
        level = kwargs.get('level')
        if by is None and level is not None:
            return self.i.unsup('groupby level')
        if isinstance(self.d(by), FnV):
            r = self.i.call(by, [S(self.tst(o.axis), 'ts')], {})
            if not isinstance(r, S):
                return self.i.unsup('groupby function')
            keys = [r.t]
        else:
            keys = self.groupkeys(o, by)
        if keys is None:
            return self.i.unsup('groupby keys')
        return Lib('groupby', obj=ref, keys=keys, cls='pandas.api.typing.SeriesGroupBy')

    def groupkeys(self, o, by):
        bd = self.d(by)
        if isinstance(bd, (Lst, Tup)):
            out = []
            for x in bd.items:
                k = self.groupkeys(o, x)
                if k is None:
                    return None
                out += k
            return out
        if isinstance(bd, Idx):
            bd = Ser(bd.axis, self.tst(bd.axis), 'index')
        if isinstance(bd, Ser):
            if bd.kind == 'series':
                t = self.on(bd.t, bd.axis, o.axis)
            else:
                t = self.positional(bd.t, bd.axis, o.axis)
            return [t] if t is not None else None
        if isinstance(by, S) and by.t.op == 'str' and isinstance(o, Frm):
            t = o.get(by.t.args[0])
            return [t] if t is not None else None
        return None

    def freqsec(self, f):
        """seconds of a frequency given as text or Timedelta, else None"""
        if isinstance(f, S) and f.k == 'td':
            return f.t.args[0] if f.t.op == 'num' else None
        if isinstance(f, S) and f.t.op == 'str':
            import re
            m = re.match(r'^(-?\d*)\s*([A-Za-z]+)$', f.t.args[0])
            if m:
                n = int(m.group(1) or 1)
                u = {'D': 86400, 'd': 86400, 'h': 3600, 'H': 3600, 'min': 60, 'T': 60, 's': 1, 'S': 1, 'us': Fraction(1, 10**6), 'ms': Fraction(1, 1000)}.get(m.group(2))
                if u:
                    return Fraction(n) * u
        return None

    def ser_resample(self, ref, o, args, kwargs):
        f = arg(args, kwargs, 0, 'rule')
        sec = self.freqsec(f)
        extra = sorted('%s=%s' % (k, show_arg(v)) for k, v in kwargs.items() if k != 'rule')
        if sec is None:
            return self.i.unsup('resample')
        return Lib('resampler', obj=ref, sec=sec, extra=extra, cls='pandas.api.typing.DatetimeIndexResampler')

    def ser_rolling(self, ref, o, args, kwargs):
        w = args[0] if args else kwargs.get('window')
        return Lib('rolling', obj=ref, window=w, extra=kwargs)

    def ser_unstack(self, ref, o, args, kwargs):
        if gr(o.axis) == 'K' and len(o.axis.args) == 4:
            # last level becomes the columns
            rows, cols = ax('keys', 'lvl', o.axis.args[2]), ax('keys', 'lvl', o.axis.args[3])
            lv = args[0] if args else kwargs.get('level')
            n = self.lib.intval(lv) if lv is not None else -1
            if n in (-1, 1):
                return self.new(Tab(rows, cols, csubst(o.t, {tim('key0'): tim('row'), tim('key1'): tim('col')})))
            if n == 0:
                return self.new(Tab(cols, rows, csubst(o.t, {tim('key0'): tim('col'), tim('key1'): tim('row')})))
        return self.i.unsup('unstack')

    def ser_to_dict(self, ref, o, args, kwargs):
        return self.i.unsup('to_dict')

    def ser_quantile(self, ref, o, args, kwargs):
        q = arg(args, kwargs, 0, 'q', S(num(Fraction(1, 2))))
        if isinstance(q, S):
            return S(app('percentile', ax('filter', o.axis, lnot(isnull(o.t))) if False else o.axis, o.t, mul(q.t, num(100))))
        return self.i.unsup('quantile')

    def ser_equals(self, ref, o, args, kwargs):
        x = self.d(args[0])
        if isinstance(x, Ser):
            return S(app('equals', o.axis, o.t, x.axis, x.t), 'bool')
        return S(FALSE, 'bool')

    def ser_drop(self, ref, o, args, kwargs):
        x = arg(args, kwargs, 0, 'labels') or kwargs.get('index')
        xd = self.d(x)
        if isinstance(xd, Idx):
            keep = [c for c in conj(mask(xd.axis)) if not implies(mask(o.axis), c)]
            return self.new(o.with_(axis=ax('filter', o.axis, lnot(land(*keep))), origin=None))
        return self.i.unsup('drop')

    def ser_head(self, ref, o, args, kwargs):
        n = arg(args, kwargs, 0, 'n', S(num(5)))
        return self.new(o.with_(axis=ax('slice', o.axis, NONE, n.t), origin=None))

    def ser_tail(self, ref, o, args, kwargs):
        n = arg(args, kwargs, 0, 'n', S(num(5)))
        return self.new(o.with_(axis=ax('slice', o.axis, neg(n.t), NONE), origin=None))

    def ser_flatten(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None))

    def ser_reshape(self, ref, o, args, kwargs):
        """reshape(-1, k) of a position vector: rows of k consecutive entries"""
        its = self.lib.iterate(args[0]) if len(args) == 1 and not isinstance(args[0], S) else list(args)
        ns = [self.lib.intval(x) for x in its] if its else []
        if len(ns) == 2 and ns[1] is not None and ns[1] > 0 and gr(o.axis) == 'P':
            return Lib('blocks', ser=o, width=ns[1], cls='numpy.ndarray')
        if ns == [-1]:
            return ref
        return self.i.unsup('reshape')

    def ser_searchsorted(self, ref, o, args, kwargs):
        return self.i.unsup('searchsorted')

    def ser_normalize(self, ref, o, args, kwargs):
        if timelike(o.axis) and o.kind == 'index':
            return self.new(o.with_(t=DAY0))
        return self.i.unsup('normalize')

    def ser_set_axis(self, ref, o, args, kwargs):
        r = self.new(o.with_(origin=None))
        self.setindex(r, self.d(r), args[0])
        return r

    def ser_last_valid_index(self, ref, o, args, kwargs):
        return S(app('lastvalid', o.axis, o.t))

    def ser_first_valid_index(self, ref, o, args, kwargs):
        return S(app('firstvalid', o.axis, o.t))

    def ser_pipe(self, ref, o, args, kwargs):
        return self.i.call(args[0], [ref] + list(args[1:]), kwargs)

    def ser_agg(self, ref, o, args, kwargs):
        f = args[0] if args else kwargs.get('func')
        if isinstance(f, S) and f.t.op == 'str':
            return self.call_method(ref, o, f.t.args[0], [], {})
        return self.i.unsup('agg')

    def ser_xs(self, ref, o, args, kwargs):
        return self.i.unsup('xs')

    def ser_droplevel(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None))

    def ser_to_string(self, ref, o, args, kwargs):
        return S(app('tostring', o.axis, o.t), 'str')

    # frame methods

    def frm_map_cols(self, o, f):
        return self.new(Frm(o.axis, tuple((n, f(t)) for n, t in o.cols), open=o.open))

    def frm_copy(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None, owner=None))

    def frm_dropna(self, ref, o, args, kwargs):
        i = self.i
        how = kwargs.get('how')
        h = how.t.args[0] if isinstance(how, S) and how.t.op == 'str' else 'any'
        sub_ = kwargs.get('subset')
        axis = arg(args, kwargs, 0, 'axis')
        if axis is not None and not (isinstance(axis, S) and axis.t in (ZERO, string('index'))):
            if i.facts.get('counts') is not None and not o.open and sub_ is None:
                least = self.lib.intval(kwargs['thresh']) if 'thresh' in kwargs else 1 if h == 'all' else None
                if least is not None:
                    keep = [cmp('ge', self.count(o.axis, lnot(isnull(t))), num(least)) for n, t in o.cols]
                    if all(k in (TRUE, FALSE) for k in keep):
                        return self.new(Frm(o.axis, tuple(c for c, k in zip(o.cols, keep) if k is TRUE)))
            return i.unsup('dropna columns')
        if 'thresh' in kwargs:
            return i.unsup('dropna thresh')
        if o.open:
            return i.unsup('dropna on open frame')
        names = [n for n, t in o.cols]
        if sub_ is not None:
            names = self.strlist(sub_)
            if names is None:
                return i.unsup('dropna subset')
        cs = [isnull(o.get(n)) for n in names]
        bad = lor(*cs) if h == 'any' else land(*cs)
        na = ax('filter', o.axis, lnot(bad))
        return self.new(Frm(na, tuple((n, self.given(t, mask(na)) if timelike(o.axis) else t) for n, t in o.cols)))

    def frm_reindex(self, ref, o, args, kwargs):
        x = arg(args, kwargs, 0, 'index')
        if x is None or 'columns' in kwargs:
            cols = self.strlist(kwargs.get('columns'))
            if cols is not None and x is None:
                return self.new(Frm(o.axis, tuple((n, o.get(n) if o.get(n) is not None else (col(o.open, n) if o.open else NANT)) for n in cols)))
            return self.i.unsup('reindex columns')
        return self.reindex(o, x, kwargs)

    def frm_fillna(self, ref, o, args, kwargs):
        v = arg(args, kwargs, 0, 'value')
        if isinstance(v, S):
            if o.open:
                return self.new(Frm(o.axis, tuple((n, g(isnull(t), v.t, t)) for n, t in o.cols), open=self.derived_frame(o, lambda t: g(isnull(t), v.t, t))))
            return self.new(Frm(o.axis, tuple((n, t if t.op == 'app' and t.args[0] == 'strftime' else g(isnull(t), v.t, t)) for n, t in o.cols)))
        return self.i.unsup('fillna')

    def frm_sort_index(self, ref, o, args, kwargs):
        if set(kwargs) == {'axis'} and not args and isinstance(kwargs['axis'], S) and kwargs['axis'].t in (ONE, string('columns')) and not o.open:
            if all(isinstance(c, str) for c, t in o.cols):
                return self.new(o.with_(cols=tuple(sorted(o.cols, key=lambda p: p[0])), origin=None, owner=None))
        if kwargs or args:
            return self.i.unsup('sort_index options')
        a = o.axis.args[1] if o.axis.args[0] in ('rev', 'unsorted') else o.axis
        return self.new(o.with_(axis=a, origin=None, owner=None))

    def frm_rename(self, ref, o, args, kwargs):
        i = self.i
        c = kwargs.get('columns')
        if c is None and isinstance(kwargs.get('axis'), S) and kwargs['axis'].t in (ONE, string('columns')):
            c = arg(args, kwargs, 0, 'mapper')
        if isinstance(c, (FnV, Ext)) and not o.open:
            cols = []
            for n, t in o.cols:
                m = self.lib.dictkey(i.call(c, [self.lib.keyval(n)], {}))
                if m is None:
                    return i.unsup('rename')
                cols.append((m, t))
            return self.new(Frm(o.axis, tuple(cols)))
        if c is None:
            if 'index' in kwargs:
                return i.unsup('rename index')
            return self.new(o.with_(origin=None, owner=None))
        cd = self.d(c)
        if isinstance(cd, Dct) and not cd.open:
            m = dict((k, self.lib.dictkey(v)) for k, v in cd.items)
            cols = tuple((m.get(n, n), t) for n, t in o.cols)
            if o.open:
                for k, v in m.items():
                    if o.get(k) is None:
                        cols = cols + ((v, col(o.open, k)),)
                src = self.derived_frame(o, None, ('renamed', tuple(sorted(m.items()))))
                return self.new(Frm(o.axis, cols, open=src))
            return self.new(Frm(o.axis, cols))
        if o.open and not o.cols:
            src = self.derived_frame(o, None, ('renamed', '?'))
            return self.new(Frm(o.axis, (), open=src))
        return i.unsup('rename')

    def frm_drop(self, ref, o, args, kwargs):
        i = self.i
        labels = arg(args, kwargs, 0, 'labels')
        axis = arg(args, kwargs, 1, 'axis')
        if 'columns' in kwargs:
            labels, axis = kwargs['columns'], S(ONE)
        if 'index' in kwargs:
            labels, axis = kwargs['index'], S(ZERO)
        if isinstance(axis, S) and axis.t in (ONE, string('columns')):
            names = self.strlist(labels)
            if names is None and isinstance(labels, S) and labels.t.op == 'str':
                names = [labels.t.args[0]]
            if names is not None:
                return self.new(Frm(o.axis, tuple((n, t) for n, t in o.cols if n not in names), open=o.open))
            src = self.derived_frame(o, None, ('dropped', labels)) if o.open else None
            return self.new(Frm(o.axis, o.cols, open=src))
        x = self.d(labels)
        if isinstance(x, Idx):
            na = ax('without', o.axis, x.axis)
            if x.axis.args[0] == 'filter' and x.axis.args[1] is o.axis:
                na = ax('filter', o.axis, lnot(x.axis.args[2]))
            return self.new(Frm(na, o.cols, open=o.open))
        return i.unsup('drop')

    def frm_join(self, ref, o, args, kwargs):
        x = self.d(args[0])
        how = kwargs.get('how')
        h = how.t.args[0] if isinstance(how, S) and how.t.op == 'str' else 'left'
        i = self.i
        if isinstance(x, Frm) and not o.open and not x.open:
            if i.files is not None and h in ('outer', 'left', 'inner') and not args[1:] and set(kwargs) <= {'how'}:
                pa, pb = ([p.axis] if p.axis.args[0] == 'labelled' else list(p.axis.args[2:]) if p.axis.args[0] == 'joined' and p.axis.args[1] == h else [] for p in (o, x))
                if pa and pb and not (set(o.names()) & set(x.names()) if hasattr(o, 'names') else set(n for n, t in o.cols) & set(n for n, t in x.cols)):
                    def at(p):
                        return [(n, t if p.axis.args[0] == 'joined' else app('joinedrow', p.axis, t)) for n, t in p.cols]
                    return self.new(Frm(mk('ax', 'joined', h, *(pa + pb)), tuple(at(o) + at(x))))
            na = o.axis if h == 'left' else self.join(o.axis, x.axis) if h == 'outer' else None
            if na is not None:
                return self.new(Frm(na, tuple((n, self.on(t, o.axis, na)) for n, t in o.cols) + tuple((n, self.on(t, x.axis, na)) for n, t in x.cols)))
        return i.unsup('join')

    def frm_groupby(self, ref, o, args, kwargs):
        by = arg(args, kwargs, 0, 'by')
        keys = self.groupkeys(o, by)
        if keys is None:
            return self.i.unsup('groupby keys')
        return Lib('groupby', obj=ref, keys=keys, cls='pandas.api.typing.DataFrameGroupBy')

    def frm_resample(self, ref, o, args, kwargs):
        return self.ser_resample(ref, o, args, kwargs)

    def frm_get(self, ref, o, args, kwargs):
        return self.getitem(ref, o, args[0])

    def frm_assign(self, ref, o, args, kwargs):
        r = self.new(o.with_(origin=None, owner=None))
        for k, v in kwargs.items():
            self.setcol(r, self.d(r), k, v)
        return r

    def frm_insert(self, ref, o, args, kwargs):
        n = self.lib.dictkey(args[1])
        pos = self.lib.intval(args[0])
        self.setcol(ref, o, n, args[2])
        o2 = self.d(ref)
        if pos is not None:
            t = o2.get(n)
            cols = [(a, b) for a, b in o2.cols if a != n]
            cols.insert(pos, (n, t))
            self.i.store(ref, o2.with_(cols=tuple(cols)))
        return S(NONE, 'none')

    def frm_pop(self, ref, o, args, kwargs):
        n = self.lib.dictkey(args[0])
        r = self.column(ref, o, n)
        self.lib.mutate(ref, 'pop')
        self.i.store(ref, self.d(ref).with_(cols=tuple((a, b) for a, b in o.cols if a != n)))
        return r

    def frm_items(self, ref, o, args, kwargs):
        if o.open:
            return self.i.unsup('items of open frame')
        return self.new(Lst([Tup([self.lib.keyval(n), self.new(Ser(o.axis, t, 'series', name=n))]) for n, t in o.cols]))

    def frm_iterrows(self, ref, o, args, kwargs):
        return Lib('iterrows', obj=ref)

    def frm_itertuples(self, ref, o, args, kwargs):
        return Lib('itertuples', obj=ref)

    def frm_isnull(self, ref, o, args, kwargs):
        return self.frm_map_cols(o, isnull) if not o.open else self.i.unsup('isnull')
    frm_isna = frm_isnull

    def frm_notnull(self, ref, o, args, kwargs):
        return self.frm_map_cols(o, lambda t: lnot(isnull(t))) if not o.open else self.i.unsup('notnull')
    frm_notna = frm_notnull

    def frm_astype(self, ref, o, args, kwargs):
        return self.lib.astype(ref, args, kwargs)

    def frm_to_string(self, ref, o, args, kwargs):
        if self.i.files is not None:
            r = self.text_table(o, args, kwargs)
            if r is not None:
                return r
        return S(app('tostring', o.axis, mk('pair', *[mk('kw', str(n), t) for n, t in o.cols]) if not o.open else string(o.open),
                     *[mk('kw', k, string(show_arg(v))) for k, v in sorted(kwargs.items())]), 'str')

    def frm_to_frame(self, ref, o, args, kwargs):
        return ref

    def frm_set_index(self, ref, o, args, kwargs):
        return self.i.unsup('set_index')

    def frm_reset_index(self, ref, o, args, kwargs):
        return self.i.unsup('reset_index')

    def frm_last_valid_index(self, ref, o, args, kwargs):
        return S(app('lastvalid', o.axis, string(o.open or '')))

    def frm_head(self, ref, o, args, kwargs):
        n = arg(args, kwargs, 0, 'n', S(num(5)))
        return self.new(o.with_(axis=ax('slice', o.axis, NONE, n.t), origin=None))

    def frm_pipe(self, ref, o, args, kwargs):
        return self.i.call(args[0], [ref] + list(args[1:]), kwargs)

    def frm_clip(self, ref, o, args, kwargs):
        return self.lib.clip(ref, args, kwargs)

    def frm_round(self, ref, o, args, kwargs):
        return self.ser_round(ref, o, args, kwargs)

    def frm_interpolate(self, ref, o, args, kwargs):
        if o.open:
            return self.i.unsup('interpolate frame')
        cols = [(n, self.d(self.ser_interpolate(ref, Ser(o.axis, t, 'series'), args, kwargs)).t) for n, t in o.cols]
        return self.new(Frm(o.axis, tuple(cols)))

    def frm_asfreq(self, ref, o, args, kwargs):
        f = arg(args, kwargs, 0, 'freq')
        if gr(o.axis) == 'D' and isinstance(f, S) and f.t is string('D'):
            kw = {k: v for k, v in kwargs.items() if k != 'freq'}
            return self.reindex(o, self.new(Idx(o.axis if o.axis.args[0] == 'span' else ax('span', o.axis))), kw)
        return self.i.unsup('asfreq')

    ser_asfreq = frm_asfreq

    def frm_shift(self, ref, o, args, kwargs):
        if o.open:
            return self.i.unsup('shift')
        cols = []
        na = o.axis
        for n, t in o.cols:
            r = self.d(self.ser_shift(None, Ser(o.axis, t, 'series'), args, kwargs))
            if not isinstance(r, Ser):
                return self.i.unsup('shift')
            cols.append((n, r.t))
            na = r.axis
        return self.new(Frm(na, tuple(cols)))

    # table methods

    def tab_unstack(self, ref, o, args, kwargs):
        return self.new(Ser(ax('keys', 'table', o.cols, o.rows), csubst(o.t, {tim('col'): tim('key0'), tim('row'): tim('key1')}), 'series'))

    def tab_stack(self, ref, o, args, kwargs):
        return self.new(Ser(ax('keys', 'table', o.rows, o.cols), csubst(o.t, {tim('row'): tim('key0'), tim('col'): tim('key1')}), 'series'))

    def tab_copy(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None))

    def tabagg(self, how):
        def f(ref, o, args, kwargs):
            a = arg(args, kwargs, 0, 'axis', S(NONE) if o.kind == 'array' else S(ZERO))
            extra = sorted(k for k in kwargs if k not in ('axis', 'skipna'))
            if not extra and isinstance(a, S) and a.t is NONE:
                return S(app('rowagg', how, o.cols, lam(tim('col'), app('rowagg', how, o.rows, lam(tim('row'), o.t)))))
            if extra or not isinstance(a, S):
                return self.i.unsup('table aggregate')
            if a.t in (ZERO, string('index'), string('rows')):
                return self.new(Ser(o.cols, app('rowagg', how, o.rows, lam(tim('row'), csubst(o.t, {tim('col'): tim('key0')}))), 'series'))
            if a.t in (ONE, string('columns')):
                return self.new(Ser(o.rows, app('rowagg', how, o.cols, lam(tim('col'), csubst(o.t, {tim('row'): tim('key0')}))), 'series'))
            return self.i.unsup('table aggregate')
        return f

    @property
    def tab_mean(self):
        return self.tabagg('mean')

    @property
    def tab_min(self):
        return self.tabagg('min')

    @property
    def tab_max(self):
        return self.tabagg('max')

    @property
    def tab_sum(self):
        return self.tabagg('sum')

    def tab_reset_index(self, ref, o, args, kwargs):
        return self.i.unsup('reset_index')

    def tab_rename_axis(self, ref, o, args, kwargs):
        return ref

    def tab_apply(self, ref, o, args, kwargs):
        """column-wise function of a table"""
        f = args[0]
        c = self.new(Ser(o.rows, csubst(o.t, {tim('row'): tim('key0')}), 'series'))
        r = self.d(self.i.call(f, [c], {}))
        if isinstance(r, Ser) and sameaxis(r.axis, o.rows):
            return self.new(Tab(o.rows, o.cols, csubst(r.t, {tim('key0'): tim('row')})))
        return self.i.unsup('table apply')

    # -- groups -----------------------------------------------------------------------

    def group_getattr(self, l, name):
        o = self.d(l.obj)
        if isinstance(o, Frm) and isinstance(name, str) and (o.get(name) is not None or (o.open and name not in AGG + ('apply', 'transform', 'agg', 'ffill'))):
            return Lib(**dict(l.__dict__, obj=self.column(l.obj, o, name)))
        if l.cls:
            self.i.note_api('method', l.cls, name)
        return Meth(l, name)

    def group_method(self, l, name, args, kwargs):
        i = self.i
        return self.lib.dist(lambda r: self.group_method1(l, r, name, args, kwargs), l.obj)

    def group_method1(self, l, ref, name, args, kwargs):
        i = self.i
        o = self.d(ref)
        if l.kind == 'rolling':
            w = l.window.t if isinstance(l.window, S) else opq('window')
            if isinstance(o, Ser):
                return self.new(Ser(o.axis, app('rolling', name, o.axis, o.t, w), 'series'))
            return i.unsup('rolling')
        if name in ('agg', 'aggregate', 'apply') and args and isinstance(args[0], S) and args[0].t.op == 'str':
            name = args[0].t.args[0]
            args = args[1:]
        if name in ('agg', 'aggregate', 'apply') and args and isinstance(args[0], Ext) and args[0].path.startswith('numpy.'):
            name = args[0].path.split('.')[-1]
            args = args[1:]
        if l.kind == 'resampler':
            return self.resample_agg(l, ref, o, name, args, kwargs)
        if isinstance(o, Frm):
            if o.open:
                return i.unsup('group aggregate of open frame')
            cols = []
            na = None
            for n, t in o.cols:
                r = self.group_method1(l, self.new(Ser(o.axis, t, 'series', name=n)), name, args, kwargs)
                ro = self.d(r)
                if not isinstance(ro, Ser):
                    return r
                na = ro.axis
                cols.append((n, ro.t))
            return self.new(Frm(na, tuple(cols)))
        keys = l.keys
        if name in AGG:
            return self.group_agg(o, keys, name, args, kwargs)
        if name in ('transform', 'apply'):
            f = args[0] if args else kwargs.get('func')
            if isinstance(f, S) and f.t.op == 'str':
                return self.group_transform(o, keys, f.t.args[0])
            v = self.new(o.with_(origin=None, view=('group', tuple(keys))))
            r = i.call(f, [v], {})
            ro = self.d(r)
            if isinstance(ro, Ser):
                return self.new(ro.with_(view=None))
            if isinstance(ro, S):
                if name == 'transform':
                    return self.new(o.with_(t=ro.t, origin=None))
                return i.unsup('group apply')
            return i.unsup('group function')
        if name in ('ffill', 'pad'):
            lim = arg(args, kwargs, 0, 'limit')
            return self.fill(o.with_(view=('group', tuple(keys))), lim.t if isinstance(lim, S) and lim.t is not NONE else None)
        if name == 'shift':
            return i.unsup('group shift')
        return i.unsup('group %s' % name)

    def group_agg(self, o, keys, how, args, kwargs):
        i = self.i
        extra = [k for k, v in kwargs.items() if k not in ('numeric_only', 'skipna') or isinstance(v, S) and v.t is FALSE and k == 'skipna']
        if extra or args:
            how = how + ':' + ','.join(sorted('%s=%s' % (k, show_arg(v)) for k, v in kwargs.items()))
        if len(keys) == 1 and keys[0] is DAY0 and subdaily(o.axis):
            return self.new(Ser(ax('days', o.axis), dagg(how, o.axis, o.t), 'series', name=o.name))
        if len(keys) == 1 and keys[0] is DAY0 and gr(o.axis) == 'D':
            return self.new(Ser(o.axis, o.t, 'series'))
        t = app('gagg', how, o.axis, mk("keys", *keys), o.t, *[tim('key%d' % j) for j in range(len(keys))])
        return self.new(Ser(ax('keys', 'group', *keys), t, 'series', name=o.name))

    def group_transform(self, o, keys, how):
        if len(keys) == 1 and keys[0] is DAY0:
            return self.new(o.with_(t=dagg(how, o.axis, o.t), origin=None))
        return self.new(o.with_(t=app('gagg', how, o.axis, mk("keys", *keys), o.t, *keys), origin=None))

    def resample_agg(self, l, ref, o, how, args, kwargs):
        i = self.i
        if isinstance(o, Frm):
            if o.open and not o.cols:
                return i.unsup('resample open frame')
            cols = []
            na = None
            for n, t in o.cols:
                ro = self.d(self.resample_agg(l, None, Ser(o.axis, t, 'series'), how, args, kwargs))
                if not isinstance(ro, Ser):
                    return i.unsup('resample frame')
                na = ro.axis
                cols.append((n, ro.t))
            return self.new(Frm(na, tuple(cols)))
        if how not in AGG:
            if how in ('asfreq', 'ffill', 'interpolate'):
                return i.unsup('resample.%s' % how)
            return i.unsup('resample.%s' % how)
        name = how
        ex = list(l.extra) + ['%s=%s' % (k, show_arg(v)) for k, v in sorted(kwargs.items())]
        if ex:
            name = how + ':' + ','.join(ex)
        if l.sec == 86400 and timelike(o.axis):
            if gr(o.axis) == 'D':
                na = ax('span', o.axis)
                return self.new(Ser(na, gm(mask(o.axis), o.t, ZERO if how == 'sum' else NANT), 'series'))
            da = dayaxis(o.axis)
            na = ax('span', da)
            t = dagg(name, o.axis, o.t)
            if not (t.op == 'app' and t.args[0] == 'dagg'):
                t = gm(mask(da), t, ZERO if how == 'sum' else NANT) if da is not na else t
            return self.new(Ser(na, t, 'series', name=o.name))
        if timelike(o.axis) and gr(o.axis) == 'M':
            da = o.axis.args[1] if o.axis.args[0] in ('grid', 'gridfill') else None
            if da is not None:
                return self.new(Ser(ax('gridfill', da, num(l.sec)), app('binagg', name, num(l.sec), o.axis, o.t), 'series', name=o.name))
        return i.unsup('resample to %s s' % l.sec)

    def gframe_method(self, l, name, args, kwargs):
        """frame with the keys of a grouped series as columns level_0, level_1 ..."""
        r = self.gframe_json(l, name, args, kwargs)
        if r is not None:
            return r
        o = getattr(l, 'ser', None)
        if o is None:
            return self.i.unsup('grouped table.%s' % name)
        nk = len(o.axis.args) - 2
        if name in ('pivot', 'pivot_table') and nk == 2:
            def level(k):
                v = kwargs.get(k)
                if isinstance(v, S) and v.t.op == 'str' and v.t.args[0] in ('level_0', 'level_1'):
                    return int(v.t.args[0][-1])
                return None
            c, r = level('columns'), level('index')
            if {c, r} == {0, 1}:
                lv = [ax('keys', 'lvl', o.axis.args[2]), ax('keys', 'lvl', o.axis.args[3])]
                m = {tim('key%d' % c): tim('col'), tim('key%d' % r): tim('row')}
                return self.new(Tab(lv[r], lv[c], csubst(o.t, m)))
            if c is not None and c == r:
                return self.i.unsup('pivot on one level')
        return self.i.unsup('grouped table.%s' % name)

    def dt_method(self, l, name, args, kwargs):
        return self.i.unsup('dt.%s' % name)

    def columns_method(self, ref, l, name, args, kwargs):
        i = self.i
        if name in ('tolist', 'to_list', 'copy'):
            if l.frame is not None and l.frame.open:
                return Lib('columns', items=l.items, frame=l.frame, cls='list')
            return self.new(Lst(l.items))
        if name == 'droplevel':
            return l
        if name in ('isin',):
            return i.unsup('columns.isin')
        return i.unsup('columns.%s' % name)


class OpenView(Frm):
    """open frame on another axis: further columns are converted on access"""

    __slots__ = ('conv', 'pd')

    def __init__(self, axis, cols, open, conv, pd, origin=None, owner=None):
        Frm.__init__(self, axis, tuple((n, conv(t)) for n, t in cols), None, origin, owner)
        self.conv = conv
        self.pd = pd
        self.open = None
        self.src = open

    __slots__ = ('conv', 'pd', 'src')

    def get(self, name):
        t = Frm.get(self, name)
        if t is None and isinstance(name, str) and not self.isattr(name):
            return self.conv(col(self.src, name))
        return t

    def isattr(self, name):
        from .libpd import FRAMEATTR
        return FRAMEATTR(name)

    def with_(self, **k):
        r = Frm.with_(self, **{a: b for a, b in k.items() if a != 'open'})
        o = OpenView.__new__(OpenView)
        o.axis, o.cols, o.open, o.origin, o.owner = r.axis, r.cols, None, r.origin, r.owner
        o.conv, o.pd, o.src = self.conv, self.pd, self.src
        return o


def show_arg(v):
    if isinstance(v, S):
        return str(v.t)
    return type(v).__name__
