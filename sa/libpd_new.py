"""pandas model: constructors and input."""
from fractions import Fraction

from .values import *
from . import terms as TM
from .axes import *
from .files import bare, stamp
from .libpd_ops import boolish
from .libpd_group import arg, show_arg

TM.APPFLAGS['json'] = ('val',)


class Makers(object):
    def f_pandas_isnull(self, args, kwargs):
        v = args[0]
        o = self.d(v)
        if isinstance(o, S):
            return S(FALSE if o.k in ('str', 'ts') or o.t is TRUE or o.t is FALSE else TRUE if o.t is NONE else isnull(o.t), 'bool')
        if isinstance(o, Frm):
            return self.frm_isnull(v, o, [], {})
        return self.lib.map1(isnull, v)
    f_pandas_isna = f_pandas_isnull

    def f_pandas_notnull(self, args, kwargs):
        v = args[0]
        o = self.d(v)
        if isinstance(o, S):
            return S(lnot(self.f_pandas_isnull(args, kwargs).t), 'bool')
        if isinstance(o, Frm):
            return self.frm_notnull(v, o, [], {})
        return self.lib.map1(lambda t: lnot(isnull(t)), v)
    f_pandas_notna = f_pandas_notnull

    # -- time -------------------------------------------------------------------------

    UNITS = {'weeks': 604800, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': Fraction(1, 1000),
             'microseconds': Fraction(1, 10**6), 'nanoseconds': Fraction(1, 10**9),
             'D': 86400, 'd': 86400, 'day': 86400, 'h': 3600, 'H': 3600, 'hour': 3600, 'm': 60, 'min': 60, 'T': 60, 'minute': 60, 's': 1, 'S': 1,
             'second': 1, 'ms': Fraction(1, 1000), 'us': Fraction(1, 10**6), 'ns': Fraction(1, 10**9), 'W': 604800}

    def f_pandas_Timedelta(self, args, kwargs):
        i = self.i
        tot = ZERO
        if args:
            v = args[0]
            unit = arg(args, kwargs, 1, 'unit')
            if isinstance(v, S) and v.k == 'td':
                return v
            if isinstance(v, S) and v.t.op == 'str':
                import re
                s = v.t.args[0]
                m = re.match(r'^\s*(-?\d+(?:\.\d+)?)\s*([a-zA-Z]+)\s*$', s)
                if m and m.group(2) in self.UNITS:
                    return S(num(Fraction(m.group(1)) * Fraction(self.UNITS[m.group(2)])), 'td')
                sec = self.freqsec(v)
                if sec is not None:
                    return S(num(sec), 'td')
                return i.unsup('Timedelta text')
            if isinstance(v, S) and isinstance(unit, S) and unit.t.op == 'str':
                u = self.UNITS.get(unit.t.args[0])
                if u is None:
                    return self.dead('badcall', 'Timedelta unit %s' % unit.t.args[0])
                return S(mul(num(Fraction(u)), v.t), 'td')
            if isinstance(v, S) and unit is None:
                return S(mul(num(Fraction(1, 10**9)), v.t), 'td')
            return i.unsup('Timedelta')
        for k, v in kwargs.items():
            if k not in self.UNITS or not isinstance(v, S):
                return i.unsup('Timedelta argument')
            tot = add(tot, mul(num(Fraction(self.UNITS[k])), v.t))
        return S(tot, 'td')

    f_datetime_timedelta = f_pandas_Timedelta

    def f_pandas_to_timedelta(self, args, kwargs):
        o = self.d(args[0])
        unit = arg(args, kwargs, 1, 'unit')
        u = self.UNITS.get(unit.t.args[0]) if isinstance(unit, S) and unit.t.op == 'str' else None
        if u is None:
            return self.i.unsup('to_timedelta')
        if isinstance(o, S):
            return S(mul(num(Fraction(u)), o.t), 'td')
        return self.lib.map1(lambda t: mul(num(Fraction(u)), t), args[0])

    def f_pandas_Timestamp(self, args, kwargs):
        if len(args) == 1 and isinstance(args[0], S) and not kwargs:
            if args[0].k == 'ts':
                return args[0]
            t = stamp(args[0].t)
            return S(t if t is not None else app('timestamp', args[0].t), 'ts')
        return self.i.unsup('Timestamp')

    def f_pandas_to_datetime(self, args, kwargs):
        o = self.d(args[0])
        if isinstance(o, Idx):
            return args[0]
        kw = [mk('kw', k, v.t if isinstance(v, S) else opq('object')) for k, v in sorted(kwargs.items())]
        if self.i.files is not None and isinstance(o, (S, Ser)) and set(kwargs) <= {'format'}:
            t = app('todatetime', bare(o.t), *kw)
            return S(t, 'ts') if isinstance(o, S) else self.new(o.with_(t=t, origin=None, view=None))
        if isinstance(o, Ser):
            return self.new(o.with_(t=app('todatetime', o.t, *kw), origin=None, view=None))
        if isinstance(o, S):
            return S(app('todatetime', o.t, *kw), 'ts')
        return self.i.unsup('to_datetime')

    def f_pandas_DatetimeIndex(self, args, kwargs):
        v = args[0] if args else kwargs.get('data')
        o = self.d(v)
        if isinstance(o, Idx):
            return self.new(Idx(o.axis))
        if isinstance(o, Ser):
            a = self.axis_from_labels(o)
            if a is not None:
                return self.new(Idx(a))
        return self.i.unsup('DatetimeIndex')

    def tsend_of(self, t):
        """(axis, which, offset seconds) for a first/last time stamp plus an offset"""
        base = None
        rest = []
        parts = t.args if t.op == 'add' else (t,)
        for p in parts:
            if p.op == 'app' and p.args[0] == 'ts' and base is None:
                base = p
            else:
                rest.append(p)
        if base is None:
            return None
        return base.args[1], base.args[2], add(*rest) if rest else ZERO

    def f_pandas_date_range(self, args, kwargs):
        i = self.i
        start = arg(args, kwargs, 0, 'start')
        end = arg(args, kwargs, 1, 'end')
        periods = arg(args, kwargs, 2, 'periods')
        freq = arg(args, kwargs, 3, 'freq', S(string('D'), 'str'))
        if isinstance(periods, S) and periods.t is NONE:
            periods = None
        for k in kwargs:
            if k not in ('start', 'end', 'periods', 'freq'):
                return i.unsup('date_range %s' % k)
        if isinstance(freq, S) and freq.k == 'td':
            f = freq.t
        else:
            sec = self.freqsec(freq)
            f = num(sec) if sec is not None else None
        if f is None or not isinstance(start, S):
            return i.unsup('date_range')
        s0 = self.tsend_of(start.t)
        if periods is not None:
            if isinstance(periods, S) and s0 and s0[2] is ZERO:
                A = s0[0]
                # number of days times entries per day
                n = periods.t
                if TM.tkey(mul(n, f)) == TM.tkey(mul(self.axlen(A), DAYSEC)):
                    return self.new(Idx(ax('consecutive', A, f)))
            return i.unsup('date_range periods')
        if not isinstance(end, S):
            return i.unsup('date_range')
        e0 = self.tsend_of(end.t)
        if s0 and e0 and s0[0] is e0[0] and s0[1] == 'first' and e0[1] == 'last' and gr(s0[0]) == 'D':
            A = s0[0]
            so, eo = s0[2], e0[2]
            if f.op == 'num' and so.op == 'num' and eo.op == 'num':
                if f is DAYSEC:
                    if so is eo or TM.tkey(so) == TM.tkey(eo):
                        if so is ZERO:
                            return self.new(Idx(ax('span', A)))
                        if so.args[0] % 3600 == 0 and 0 < so.args[0] < 86400:
                            return self.new(Idx(ax('athour', ax('span', A), num(so.args[0] / 3600))))
                    elif so is ZERO and 0 <= eo.args[0] < 86400:
                        return self.new(Idx(ax('span', A)))
                elif so is ZERO and 86400 - f.args[0] <= eo.args[0] < 86400 and (Fraction(86400) / f.args[0]).denominator == 1:
                    if f is H:
                        return self.new(Idx(ax('hourlyfill', A)))
                    return self.new(Idx(ax('gridfill', A, f)))
                if f.args[0] > 0:
                    if (Fraction(86400) / f.args[0]).denominator == 1:
                        eo = num(so.args[0] + (eo.args[0] - so.args[0]) // f.args[0] * f.args[0])
                    return self.new(Idx(ax('steps', A, so, eo, f)))
            elif so is ZERO and TM.tkey(add(eo, f)) == TM.tkey(DAYSEC):
                # sub-daily step given by a symbol that divides the day
                return self.new(Idx(ax('gridfill', A, f)))
        return self.new(Idx(ax('dr', start.t, end.t, f)))

    # -- Series and DataFrame -------------------------------------------------------------

    def axis_arg(self, v):
        if v is None:
            return None
        o = self.d(v)
        if isinstance(o, S) and o.t is NONE:
            return None
        if isinstance(o, Idx):
            return o.axis
        if isinstance(o, Ser):
            return self.axis_from_labels(o)
        if isinstance(o, Lib) and o.kind == 'range':
            lo, hi, st = o.lo, o.hi, o.step
            if lo is ZERO and st is ONE:
                return ax('range', hi)
            return ax('keys', 'range', lo, hi, st)
        if isinstance(o, (Lst, Tup)):
            ks = [self.lib.dictkey(x) for x in o.items]
            if all(k is not None for k in ks):
                return ax('keys', 'list', *[self.lib.keyval(k).t for k in ks])
        if isinstance(o, Arr) and len(o.shape) == 1 and all(c.op in ('num', 'str') for c in o.cells):
            return ax('keys', 'list', *o.cells)
        if isinstance(o, Lib) and o.kind == 'multiindex':
            return o.axis
        if isinstance(o, Lib) and o.kind == 'columns':
            return ax('keys', 'columns', *[x.t for x in o.items])
        return None

    def sharedindex(self, r, args, kwargs):
        """a new series or frame takes over the index object given, or that of the series it is made of"""
        index = arg(args, kwargs, 1, 'index')
        data = arg(args, kwargs, 0, 'data')
        if isinstance(index, Ref):
            return self.sharing(r, index)
        o = self.d(data) if data is not None else None
        if isinstance(o, Ser) and o.kind == 'series':
            return self.sharing(r, data)
        if isinstance(o, Dct):
            ss = [v for k, v in o.items if isinstance(v, Ref) and isinstance(self.d(v), Ser) and self.d(v).kind == 'series']
            if ss and len({id(self.d(v).axis) for v in ss}) == 1:
                return self.sharing(r, ss[0])
        return r

    def f_pandas_Series(self, args, kwargs):
        return self.sharedindex(self.series1(args, kwargs), args, kwargs)

    def series1(self, args, kwargs):
        i = self.i
        data = arg(args, kwargs, 0, 'data')
        index = arg(args, kwargs, 1, 'index')
        for k in kwargs:
            if k not in ('data', 'index', 'dtype', 'name', 'copy'):
                return self.dead('badcall', 'Series argument %s' % k)
        na = self.axis_arg(index)
        if index is not None and na is None and not (isinstance(index, S) and index.t is NONE):
            return i.unsup('Series index')
        o = self.d(data) if data is not None else None
        if data is None or isinstance(o, S):
            t = o.t if o is not None and o.t is not NONE else NANT
            if na is None:
                return i.unsup('Series without index')
            return self.new(Ser(na, t, 'series'))
        if isinstance(o, Idx):
            o = Ser(o.axis, self.tst(o.axis), 'index')
        if isinstance(o, Ser):
            if na is None:
                if o.kind == 'series':
                    return self.new(o.with_(origin=None, view=None))
                if gr(o.axis) == 'P':
                    return self.new(Ser(o.axis, o.t, 'series'))
                return self.new(Ser(ax('range', self.lib.length(o.axis)), self.pushelem(o.t, o.axis, tim('pos')), 'series'))
            if o.kind == 'series':
                t = self.on(o.t, o.axis, na)
            else:
                t = self.positional(o.t, o.axis, na)
                if t is None and self.samelen(o.axis, na) is False:
                    return self.dead('badcall', 'Series: data of another length than its index')
            if t is None:
                i.unsup('Series(%s) on %s' % (o.axis, na))
                t = opq('Series')
            return self.new(Ser(na, t, 'series'))
        if isinstance(o, Dct) and not o.open:
            if na is None:
                ks = [self.lib.keyval(k).t for k, v in o.items]
                if all(isinstance(v, S) for k, v in o.items):
                    t = NANT
                    for (k, v), kt in reversed(list(zip(o.items, ks))):
                        t = v.t if t is NANT else g(cmp('eq', tim('key0'), kt), v.t, t)
                    return self.new(Ser(ax('keys', 'list', *ks), t, 'series'))
        if isinstance(o, (Lst, Tup)) or isinstance(o, Arr) and len(o.shape) == 1:
            its = self.lib.iterate(data)
            if its is not None and all(isinstance(x, S) for x in its):
                if na is None:
                    na = ax('keys', 'list', *[num(k) for k in range(len(its))])
                if na.args[0] == 'keys' and na.args[1] == 'list' and len(na.args) - 2 == len(its):
                    t = None
                    for x, k in reversed(list(zip(its, na.args[2:]))):
                        t = x.t if t is None else g(cmp('eq', tim('key0'), k), x.t, t)
                    return self.new(Ser(na, t if t is not None else NANT, 'series'))
                if na.args[0] == 'keys' and na.args[1] == 'range' and all(x.op == 'num' for x in na.args[2:]):
                    ks = list(range(*[int(x.args[0]) for x in na.args[2:]]))
                    if len(ks) == len(its):
                        t = None
                        for x, k in reversed(list(zip(its, ks))):
                            t = x.t if t is None else g(cmp('eq', tim('key0'), num(k)), x.t, t)
                        return self.new(Ser(na, t, 'series'))
                if timelike(na):
                    return i.unsup('Series of a constant list on a time index')
        if isinstance(o, Lib) and o.kind == 'symlist':
            return i.unsup('Series of a collected list')
        if isinstance(o, Lib) and o.kind == 'gframe':
            return i.unsup('Series of table')
        return i.unsup('Series(%s)' % type(o).__name__)

    def samelen(self, a, b):
        x, y = self.axlen(a), self.axlen(b)
        if TM.tkey(x) == TM.tkey(y):
            return True
        if any(TM.tkey(add(x, num(k))) == TM.tkey(y) for k in (-1, 1)):
            return False
        return None

    def f_pandas_DataFrame(self, args, kwargs):
        return self.sharedindex(self.frame1(args, kwargs), args, kwargs)

    def frame1(self, args, kwargs):
        i = self.i
        data = arg(args, kwargs, 0, 'data')
        index = arg(args, kwargs, 1, 'index')
        columns = arg(args, kwargs, 2, 'columns')
        for k in kwargs:
            if k not in ('data', 'index', 'columns', 'dtype', 'copy'):
                return self.dead('badcall', 'DataFrame argument %s' % k)
        o = self.d(data) if data is not None else None
        if isinstance(o, S) and o.t is NONE:
            o = None
        na = self.axis_arg(index)
        if index is not None and na is None and not (isinstance(index, S) and index.t is NONE):
            return i.unsup('DataFrame index')
        names = None
        copen = None
        if columns is not None:
            cd = self.d(columns)
            if isinstance(cd, Lib) and cd.kind == 'columns' and cd.frame is not None and cd.frame.open:
                copen = cd.frame
                names = [self.lib.dictkey(x) for x in cd.items]
            else:
                its = self.lib.iterate(columns)
                if its is not None:
                    names = [self.lib.dictkey(x) for x in its]
                    if any(n is None for n in names):
                        names = None
            if names is None and isinstance(cd, Lib) and cd.kind == 'range':
                its = None
            if names is None:
                return i.unsup('DataFrame columns')
        if o is None or isinstance(o, S):
            t = o.t if o is not None else NANT
            if na is not None and gr(na) == 'K' and names and all(isinstance(n, int) for n in names):
                return self.new(Tab(na, ax('keys', 'list', *[num(n) for n in names]), t))
            if na is None:
                na = ax('empty')
            if copen is not None:
                src = self.derived_frame(copen, lambda u: t, ('const', t))
                return self.new(Frm(na, tuple((n, t) for n in names), open=src))
            return self.new(Frm(na, tuple((n, t) for n in (names or []))))
        if isinstance(o, Dct) and not o.open:
            if na is None:
                for k, v in o.items:
                    vd = self.d(v)
                    if isinstance(vd, Ser) and vd.kind == 'series':
                        na = vd.axis if na is None else self.join(na, vd.axis)
                        if na is None:
                            return i.unsup('DataFrame of series with different indexes')
                if na is None:
                    return i.unsup('DataFrame of dict')
            cols = []
            items = o.items
            if names is not None:
                items = [(n, o.get(n)) for n in names]
            for k, v in items:
                cols.append((k, self.value_on(v, na) if v is not None else NANT))
            return self.new(Frm(na, tuple(cols)))
        if isinstance(o, Frm):
            if na is None:
                r = o.with_(origin=None, owner=None)
            else:
                if o.open:
                    return i.unsup('DataFrame of open frame')
                r = Frm(na, tuple((n, self.on(t, o.axis, na)) for n, t in o.cols))
                if any(t is None for n, t in r.cols):
                    return i.unsup('DataFrame reindex')
            if names is not None:
                r = Frm(r.axis, tuple((n, r.get(n) if r.get(n) is not None else (col(r.open, n) if r.open else NANT)) for n in names))
            return self.new(r)
        if isinstance(o, Ser):
            if na is None:
                na = o.axis if o.kind == 'series' else ax('range', self.lib.length(o.axis))
            if names and len(names) == 1:
                return self.new(Frm(na, ((names[0], self.value_on(data, na)),)))
            return self.new(Frm(na, ((o.name if o.name is not None else 0, self.value_on(data, na)),)))
        if isinstance(o, Tab):
            return self.new(o.with_(origin=None))
        if isinstance(o, Arr) and len(o.shape) == 2 and na is not None:
            n, m = o.shape
            rk = self.keylist(na)
            if rk is not None and len(rk) == n:
                ck = names if names is not None else list(range(m))
                cols = []
                for c in range(m):
                    t = None
                    for r in range(n - 1, -1, -1):
                        x = o.cells[r * m + c]
                        t = x if t is None else g(cmp('eq', tim('key0'), rk[r]), x, t)
                    cols.append((ck[c], t))
                return self.new(Frm(na, tuple(cols)))
        return i.unsup('DataFrame(%s)' % type(o).__name__)

    def keylist(self, na):
        if na.args[0] != 'keys':
            return None
        if na.args[1] == 'list':
            return list(na.args[2:])
        if na.args[1] == 'range' and all(x.op == 'num' for x in na.args[2:]):
            return [num(k) for k in range(*[int(x.args[0]) for x in na.args[2:]])]
        return None

    def f_pandas_MultiIndex_from_product(self, args, kwargs):
        its = self.lib.iterate(args[0])
        if its is None:
            return self.i.unsup('MultiIndex')
        axes = [self.axis_arg(x) for x in its]
        return Lib('multiindex', axis=ax('keys', 'product', *[a if a is not None else ax('keys', '?') for a in axes]))

    def f_pandas_Index(self, args, kwargs):
        o = self.d(args[0])
        if isinstance(o, Idx):
            return args[0]
        return self.i.unsup('Index')

    def f_pandas_concat(self, args, kwargs):
        i = self.i
        objs = args[0] if args else kwargs.get('objs')
        axis = arg(args, kwargs, 1, 'axis', S(ZERO))
        od = self.d(objs)
        if isinstance(od, Dct) and not od.open:
            parts = [v for k, v in od.items]
            keys = [k for k, v in od.items]
        else:
            parts = self.lib.iterate(objs)
            keys = None
        if parts is None:
            return i.unsup('concat')
        if 'keys' in kwargs:
            ks = self.lib.iterate(kwargs['keys'])
            keys = [self.lib.dictkey(k) for k in ks] if ks else None
        parts = [p for p in parts if not (isinstance(p, S) and p.t is NONE)]
        os = [self.d(p) for p in parts]
        if not (isinstance(axis, S) and axis.t in (ZERO, ONE, string('columns'), string('index'))):
            return i.unsup('concat axis')
        if axis.t in (ONE, string('columns')):
            na = None
            cols = []
            for n, p in enumerate(os):
                if isinstance(p, (Ser, Frm)) and not getattr(p, 'open', None):
                    na = p.axis if na is None else self.join(na, p.axis)
                    if na is None:
                        return i.unsup('concat of different indexes')
                else:
                    return i.unsup('concat')
            for n, p in enumerate(os):
                if isinstance(p, Ser):
                    nm = keys[n] if keys else p.name if p.name is not None else n
                    cols.append((nm, self.on(p.t, p.axis, na)))
                else:
                    cols += [(c, self.on(t, p.axis, na)) for c, t in p.cols]
            return self.new(Frm(na, tuple(cols)))
        if len(os) == 1:
            return parts[0]
        if i.files is not None and not set(kwargs) - {'objs', 'axis', 'sort'} and all(isinstance(p, Frm) and not p.open for p in os):
            os = [p for p in os if p.axis.args[0] != 'empty']
            flat = [[(x, dict((n, t.args[k + 1]) if t.op == 'app' and t.args[0] == 'outerrow' else (n, t) for n, t in p.cols))
                     for k, x in enumerate(p.axis.args[1:] if p.axis.args[0] == 'stacked' else [p.axis])] for p in os]
            flat = [x for f in flat for x in f]
            if len(flat) > 1 and all(x.args[0] == 'labelled' for x, c in flat):
                names = list(dict.fromkeys(n for p in os for n, t in p.cols))
                return self.new(Frm(mk('ax', 'stacked', *[x for x, c in flat]), tuple((n, app('outerrow', *[c.get(n, NANT) for x, c in flat])) for n in names)))
        if all(isinstance(p, Ser) for p in os):
            return self.concat_rows(os)
        if all(isinstance(p, Frm) and not p.open for p in os):
            names = []
            for p in os:
                for n, t in p.cols:
                    if n not in names:
                        names.append(n)
            cols = []
            na = None
            for n in names:
                r = self.d(self.concat_rows([Ser(p.axis, p.get(n) if p.get(n) is not None else NANT, 'series') for p in os]))
                if not isinstance(r, Ser):
                    return i.unsup('concat')
                na = r.axis
                cols.append((n, r.t))
            return self.new(Frm(na, tuple(cols)))
        return i.unsup('concat')

    def concat_rows(self, os):
        i = self.i
        acc = os[0]
        for p in os[1:]:
            a, b = acc.axis, p.axis
            if a.args[0] == 'empty':
                acc = p
                continue
            if b.args[0] == 'empty':
                continue
            r = self.disjoint(a, b)
            if r is None:
                return i.unsup('concat of rows')
            na, c = r
            acc = Ser(na, g(c, acc.t, p.t), 'series')
        return self.new(acc)

    def disjoint(self, a, b):
        """union of two filtered parts of one axis: (axis, condition of the first)"""
        def strip(x):
            k = x.args[0]
            if k in ('hourly', 'grid') and x.args[1].args[0] == 'filter':
                f = x.args[1]
                return mk('ax', k, f.args[1], *x.args[2:]), f.args[2]
            if k == 'filter':
                return x.args[1], x.args[2]
            return x, TRUE
        if a.args[0] in ('span', 'in') and gr(a) == 'D' and b.args[0] == 'athour' and sameaxis(a, b.args[1]):
            a = ax('athour', a, ZERO)
        if b.args[0] in ('span', 'in') and gr(b) == 'D' and a.args[0] in ('athour', 'union'):
            b = ax('athour', b, ZERO)
        if a.args[0] in ('athour', 'union') and b.args[0] == 'athour':
            base = a.args[1] if a.args[0] == 'athour' else a.args[1].args[1] if a.args[1].args[0] == 'athour' else None
            if base is not None and sameaxis(base, b.args[1]):
                parts = list(a.args[1:]) if a.args[0] == 'union' else [a]
                if all(p.args[0] == 'athour' for p in parts):
                    return mk('ax', 'union', *sorted(parts + [b], key=repr)), lor(*[cmp('eq', HOUR, p.args[2]) for p in parts])
        (ra, ca), (rb, cb) = strip(a), strip(b)
        if not sameaxis(ra, rb):
            return None
        if land(ca, cb) is not FALSE:
            v = TM.decide(g(land(ca, cb), ONE, ZERO), ZERO, limit=2000)
            if v.kind != 'eq':
                return None
        c = lor(ca, cb)
        if c is not TRUE and TM.decide(g(c, ONE, ZERO), ONE, limit=2000).kind == 'eq':
            c = TRUE
        if a.args[0] in ('hourly', 'grid') and ra.args[0] in ('hourly', 'grid'):
            na = mk('ax', ra.args[0], ax('filter', ra.args[1], c), *ra.args[2:])
        else:
            na = ax('filter', ra, c)
        return ax('unsorted', na) if False else na, ca

    # -- input --------------------------------------------------------------------------

    def read_frame(self, what, args, kwargs):
        i = self.i
        src = args[0] if args else kwargs.get('filepath_or_buffer', S(NONE, 'none'))
        f = self.vfile(src)
        if f is not None:
            return self.read_known(what, f, args, kwargs)
        sd = self.d(src)
        name = i.fresh('file')
        desc = tuple(sorted((k, show_arg(v)) for k, v in kwargs.items()))
        i.event('read', (what, src, desc))
        return self.new(Frm(ax('rows', name), (), open=name))

    def f_pandas_read_csv(self, args, kwargs):
        return self.read_frame('read_csv', args, kwargs)

    def f_pandas_read_table(self, args, kwargs):
        return self.read_frame('read_table', args, kwargs)
