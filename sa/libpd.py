"""Model of pandas objects over symbolic axes: attributes and item access."""
from .values import *
from . import terms as TM
from .axes import *
from .lib import clsname, Shape, isbool, several
from .libpd_ops import Ops
from .libpd_group import Groups
from .libpd_new import Makers
from .jsons import Jsons
from .files import Files

FULL = add(DAY0, mul(H, HOUR), mul(num(60), tim('minute')), tim('second'))
TIMEATTR = {'hour': 'hour', 'minute': 'minute', 'second': 'second', 'month': 'month', 'day': 'day', 'dayofyear': 'doy',
            'day_of_year': 'doy', 'weekday': 'weekday', 'dayofweek': 'weekday', 'day_of_week': 'weekday', 'year': 'year'}


class Pandas(Ops, Groups, Makers, Files, Jsons):
    def __init__(self, interp):
        self.i = interp

    @property
    def lib(self):
        return self.i.lib

    def d(self, v):
        return self.i.deref(v)

    def new(self, o):
        return self.i.alloc(o)

    def dead(self, kind, msg):
        from .interp import Dead
        self.i.event(kind, msg)
        raise Dead(msg)

    # -- time stamps ------------------------------------------------------------

    def tst(self, axis):
        k = gr(axis)
        if k == 'D':
            return DAY0
        if k == 'H':
            return add(DAY0, mul(H, HOUR))
        if k == 'M':
            return FULL
        if k == 'K':
            return tim('key0')
        if k == 'P':
            return tim('pos')
        if axis.args[0] == 'labelled':
            return axis.args[2]
        return opq('labels')

    def timeattr(self, axis, name):
        """calendar field of the labels of an axis"""
        k = gr(axis)
        f = TIMEATTR[name]
        if f in ('hour', 'minute', 'second'):
            if k == 'D':
                return ZERO
            if k == 'H' and f != 'hour':
                return ZERO
        return tim(f)

    def split_ts(self, t):
        """(base, whole days, seconds within the day) of a time stamp term, else None"""
        parts = t.args if t.op == 'add' else (t,)
        base = None
        rest = []
        for p in parts:
            if p is DAY0 or (p.op == 'app' and p.args[0] in ('ts', 'elem')) or (p.op == 'sym' and 'ts' in p.args[1]):
                if base is not None:
                    return None
                base = p
            else:
                rest.append(p)
        if base is None:
            return None
        const = ZERO
        var = []
        for p in rest:
            if p.op == 'num':
                const = p
            else:
                var.append(p)
        r = add(*rest) if rest else ZERO
        if not var:
            c = const.args[0]
            d = c // 86400
            return base, int(d), num(c - d * 86400)
        rr = TM.N(r, None)
        lo, hi = TM.rbounds(rr, TM.St()) if isinstance(rr, TM.Rat) else (None, None)
        if lo is not None and hi is not None and lo // 86400 == hi // 86400:
            d = lo // 86400
            return base, int(d), sub(r, num(86400 * d))
        return base, None, r

    def base_hour(self, base):
        """seconds of the base stamp within its day"""
        if base is DAY0:
            return ZERO
        if base.op == 'app' and base.args[0] == 'ts' and gr(base.args[1]) == 'D':
            return ZERO
        return None

    def ts_attr(self, o, name):
        es = [u for u in subterms(o.t) if u.op == 'app' and u.args[0] == 'elem']
        if es and (name in TIMEATTR):
            where = {u.args[2:4] for u in es}
            if len(where) == 1:
                axis, idx = where.pop()
                row = TM.tdrewrite(o.t, lambda u: u.args[1] if u.op == 'app' and u.args[0] == 'elem' else None)
                r = self.ts_attr(S(row, o.k), name)
                if r is not None and not any(u.op == 'app' and u.args[0] == 'tsattr' for u in subterms(r.t)):
                    return S(self.pushelem(r.t, axis, idx), r.k)
            return S(opq('field of a time stamp'), 'int')
        if o.t is FULL and name in TIMEATTR:
            return S(tim(TIMEATTR[name]), 'int')
        if name in ('hour', 'minute', 'second'):
            p = self.split_ts(o.t)
            if p is None:
                return S(app('tsattr', name, o.t), 'int')
            base, d, sec = p
            b0 = self.base_hour(base)
            if b0 is None:
                return S(app('tsattr', name, o.t), 'int') if sec is not ZERO else S(app('tsattr', name, base), 'int')
            if d is None:
                return S(opq('time of day of a shifted stamp'), 'int')
            if name == 'hour':
                q = div(sec, H)
                return S(self.intpart(q), 'int')
            if name == 'minute':
                q = self.intpart(div(sec, H))
                return S(self.intpart(div(sub(sec, mul(H, q)), num(60))), 'int')
            q = self.intpart(div(sec, num(60)))
            return S(sub(sec, mul(num(60), q)), 'int')
        if name in TIMEATTR:
            p = self.split_ts(o.t)
            if p is not None and p[0] is DAY0 and p[1] is not None:
                return S(tim(TIMEATTR[name], p[1]), 'int')
            return S(app('tsattr', TIMEATTR[name], o.t), 'int')
        if name in ('tz', 'tzinfo'):
            return S(NONE, 'none')
        return None

    def intpart(self, t):
        r = TM.N(t, None)
        if isinstance(r, TM.Rat) and TM.rat_int(r):
            return t
        if t.op == 'add':
            whole = [x for x in t.args if self.isint(x)]
            rest = [x for x in t.args if not self.isint(x)]
            rr = TM.N(add(*rest), None)
            if isinstance(rr, TM.Rat):
                lo, hi = TM.rbounds(rr, TM.St())
                if lo is not None and hi is not None and lo >= 0 and hi < 1:
                    return add(*whole) if whole else ZERO
        return fn('floor', t)

    def isint(self, t):
        r = TM.N(t, None)
        return isinstance(r, TM.Rat) and TM.rat_int(r)

    def replaced(self, t, kw):
        """Timestamp.replace / normalize on a stamp term"""
        p = self.split_ts(t)
        if p is None:
            return opq('replace on unknown stamp')
        base, d, sec = p
        if d is None:
            return opq('replace on shifted stamp')
        b0 = self.base_hour(base)
        day = add(base, num(86400 * d)) if d else base
        kw = {k: v for k, v in kw.items()}
        for k in ('microsecond', 'nanosecond', 'tzinfo'):
            v = kw.pop(k, None)
        datek = {k: kw.pop(k) for k in ('day', 'month', 'year') if k in kw}
        if set(kw) - {'hour', 'minute', 'second'}:
            return opq('replace')
        if b0 is None:
            # the base carries an unknown time of day
            b0 = add(mul(H, app('tsattr', 'hour', base)), mul(num(60), app('tsattr', 'minute', base)), app('tsattr', 'second', base))
            day = sub(day, b0)
            sec = add(sec, b0)
            h, m, s = (app('tsattr', x, base) for x in ('hour', 'minute', 'second'))
        else:
            h = self.intpart(div(sec, H))
            m = self.intpart(div(sub(sec, mul(H, h)), num(60)))
            s = sub(sec, add(mul(H, h), mul(num(60), m)))
        h = kw.get('hour', h)
        m = kw.get('minute', m)
        s = kw.get('second', s)
        if datek:
            if not all(v.op == 'num' and v.args[0] == 1 for v in datek.values()):
                return opq('replace date')
            if base is DAY0:
                if set(datek) == {'day', 'month'}:
                    day = sub(day, mul(DAYSEC, sub(tim('doy', d), ONE)))
                elif set(datek) == {'day'}:
                    day = sub(day, mul(DAYSEC, sub(tim('day', d), ONE)))
                else:
                    return opq('replace date')
            else:
                if set(datek) == {'day', 'month'}:
                    day = sub(day, mul(DAYSEC, sub(app('tsattr', 'doy', day), ONE)))
                else:
                    return opq('replace date')
        return add(day, mul(H, h), mul(num(60), m), s)

    def ts_method(self, o, name, args, kwargs):
        i = self.i
        if name == 'replace':
            kw = {}
            for k, v in zip(('year', 'month', 'day', 'hour', 'minute', 'second'), args):
                kw[k] = v
            kw.update(kwargs)
            ts = {}
            for k, v in kw.items():
                if not isinstance(v, S):
                    return i.unsup('replace')
                ts[k] = v.t
            return S(self.replaced(o.t, ts), 'ts')
        if name == 'normalize':
            return S(self.replaced(o.t, dict(hour=ZERO, minute=ZERO, second=ZERO)), 'ts')
        if name == 'date':
            return S(self.replaced(o.t, dict(hour=ZERO, minute=ZERO, second=ZERO)), 'date')
        if name in ('to_pydatetime', 'to_timestamp', 'to_datetime64', 'tz_localize'):
            return o
        if name == 'isoformat':
            return S(app('isofull', o.t), 'str')
        if name == 'strftime':
            a = args[0] if args else kwargs.get('format')
            if isinstance(a, S):
                if a.t.op == 'str' and a.t.args[0] == '%Y-%m-%d':
                    return S(app('iso', self.replaced(o.t, dict(hour=ZERO, minute=ZERO, second=ZERO))), 'str')
                return S(app('strftime', o.t, a.t), 'str')
        if name in ('floor', 'round', 'ceil') and args and isinstance(args[0], S) and args[0].t.op == 'str':
            if name == 'floor' and args[0].t.args[0] == 'D':
                return S(self.replaced(o.t, dict(hour=ZERO, minute=ZERO, second=ZERO)), 'ts')
        if name == 'timetuple' or name == 'toordinal':
            return i.unsup('Timestamp.%s' % name)
        return i.unsup('Timestamp.%s' % name)

    # -- lengths and positions ------------------------------------------------------

    def axlen(self, axis):
        k, a = axis.args[0], axis.args[1:]
        if k == 'range':
            return a[0]
        if k == 'in':
            return app('len', axis)
        if k == 'span':
            return add(self.axlen(a[0]), app('gap', a[0]))
        if k == 'hourly':
            return mul(num(24), self.axlen(a[0]))
        if k == 'hourlyfill':
            return mul(num(24), add(self.axlen(a[0]), app('gap', a[0])))
        if k == 'grid':
            return mul(div(DAYSEC, a[1]), self.axlen(a[0]))
        if k == 'gridfill':
            return mul(div(DAYSEC, a[1]), add(self.axlen(a[0]), app('gap', a[0])))
        if k == 'athour':
            return self.axlen(a[0])
        if k == 'filter':
            return ZERO if a[1] is FALSE else app('count', a[0], a[1])
        if k in ('shiftax', 'sorted', 'rev', 'labelled'):
            return self.axlen(a[0])
        if k == 'steps' and a[3] is DAYSEC:
            return add(self.axlen(ax('span', a[0])), num((a[2].args[0] - a[1].args[0]) / 86400))
        if k == 'slice' and a[0].args[0] != 'slice':
            n = self.axlen(a[0])
            lo, hi = a[1], a[2]
            if lo is NONE and hi.op == 'num' and hi.args[0] < 0:
                return add(n, hi)
            if hi is NONE and lo.op == 'num' and lo.args[0] >= 0:
                return sub(n, lo)
            if hi is NONE and lo.op == 'num' and lo.args[0] < 0:
                return neg(lo)
            if lo is NONE and hi.op == 'num':
                return hi
        return app('len', axis)

    def first(self, axis):
        return self.tsend(axis, 'first')

    def last(self, axis):
        return self.tsend(axis, 'last')

    def tsend(self, axis, which):
        k, a = axis.args[0], axis.args[1:]
        if k == 'span':
            return self.tsend(a[0], which)
        if k in ('hourly', 'hourlyfill') and which == 'first':
            return self.tsend(a[0], which)
        if k in ('hourly', 'hourlyfill'):
            return add(self.tsend(a[0], which), num(23 * 3600))
        if k in ('grid', 'gridfill'):
            b = self.tsend(a[0], which)
            return b if which == 'first' else add(b, sub(DAYSEC, a[1]))
        if k == 'athour':
            return add(self.tsend(a[0], which), mul(H, a[1]))
        if k == 'sorted':
            return self.tsend(a[0], which)
        if k == 'shiftax':
            return add(self.tsend(a[0], which), mul(DAYSEC, a[1]))
        return app('ts', axis, which)

    def at_pos(self, ser, idx):
        """element of a vector at a constant position: scalar term"""
        t, axis = ser.t, ser.axis
        n = idx.args[0] if idx.op == 'num' else None
        if gr(axis) == 'P':
            p = idx
            if n is not None and n < 0:
                p = add(self.axlen(axis), idx)
            return csubst(t, {tim("pos"): p})
        if axis.args[0] == 'slice' and len(axis.args) == 4 and timelike(axis) and (n is None or n >= 0) \
                and (axis.args[2] is NONE or axis.args[2].op == 'num' and axis.args[2].args[0] >= 0):
            lo = ZERO if axis.args[2] is NONE else axis.args[2]
            return self.at_pos(ser.with_(axis=axis.args[1]), add(idx, lo))
        if n == 0:
            return self.endval(axis, 'first', t)
        if n == -1:
            return self.endval(axis, 'last', t)
        return self.pushelem(t, axis, idx)

    def endval(self, axis, which, t):
        if not any(u.op in ('col', 'tim') or (u.op == 'app' and u.args[0] in ('dagg', 'elem', 'dayin', 'hourin', 'moved', 'islast', 'isfirst', 'lookup', 'gagg', 'rand')) for u in subterms(t)):
            return t
        if t is self.tst(axis) and timelike(axis):
            return self.tsend(axis, which)
        return app('at', axis, which, t)

    def pushelem(self, t, axis, idx):
        def f(u):
            if u.op == 'col' or u.op == 'tim':
                return app('elem', u, axis, idx)
            if u.op == 'app' and u.args[0] in ('dagg', 'rand', 'dayin', 'hourin', 'gagg', 'lookup', 'elem', 'moved'):
                return app('elem', u, axis, idx)
            if u.op in ('lam', 'ax'):
                return u
            return None
        return tdrewrite(t, f)

    def elem(self, ser, k):
        return S(self.at_pos(ser, k.t))

    # -- aligning ----------------------------------------------------------------------

    def on(self, t, src, dst):
        """term of a labelled series on axis src as seen from axis dst (plain reindex)"""
        if sameaxis(src, dst):
            return t
        gs, gd = gr(src), gr(dst)
        if gs == 'K' and gd == 'K':
            return t if src.args[1:] == dst.args[1:] else None
        if gs not in ('D', 'H', 'M') or gd not in ('D', 'H', 'M'):
            return None
        m = mask(src)
        md = mask(dst)
        if gs == 'D' and gd != 'D':
            m = land(m, cmp('eq', HOUR, ZERO))
            if gd == 'M':
                m = land(m, cmp('eq', tim('minute'), ZERO), cmp('eq', tim('second'), ZERO))
        if gs != 'D' and gd == 'D':
            z = {HOUR: ZERO, tim('minute'): ZERO, tim('second'): ZERO}
            t = athour(t, ZERO)
            m = athour(m, ZERO)
            if m is None or t is None:
                return None
        if gs == 'H' and gd == 'M':
            m = land(m, cmp('eq', tim('minute'), ZERO), cmp('eq', tim('second'), ZERO))
        if implies(md, m):
            return self.given(t, md)
        keep = [c for c in conj(m) if not implies(md, c)]
        return gm(land(*keep), t)

    def given(self, t, m):
        """drop choices decided by the membership condition m"""
        known = closure(conj(m))
        if not known:
            return t

        def f(u):
            if u.op == 'g':
                if u.args[0] in known or implies(m, u.args[0]):
                    return self.given(u.args[1], m)
            if u.op in ('lam', 'ax', 'app'):
                return u
            return None
        return tdrewrite(t, f)

    def reindexed(self, ser, axis):
        t = self.on(ser.t, ser.axis, axis)
        if t is None:
            self.i.unsup('reindex of %s to %s' % (ser.axis, axis))
            t = opq('reindex')
        return ser.with_(axis=axis, t=t, origin=None, view=None)

    def join(self, a, b):
        """axis of the outer join of two axes"""
        if sameaxis(a, b):
            return a
        if not (timelike(a) and timelike(b)):
            return None
        ga, gb = gr(a), gr(b)
        ma, mb = mask(a), mask(b)
        if ga == 'D' and gb != 'D':
            return b if implies(ma, mb) else None
        if gb == 'D' and ga != 'D':
            return a if implies(mb, ma) else None
        if ga != gb:
            return None
        if implies(ma, mb):
            return b
        if implies(mb, ma):
            return a
        if repr(a) > repr(b):
            a, b = b, a
        return ax('union', a, b)

    def vec(self, v):
        """Ser view of an operand: Idx become their labels"""
        o = self.d(v)
        if isinstance(o, Idx):
            return Ser(o.axis, self.tst(o.axis), 'index')
        return o

    def positional(self, t, src, dst):
        """term of an unlabelled vector on axis src used position by position on axis dst"""
        if sameaxis(src, dst):
            return t
        if src.args[0] == 'sorted' and sameaxis(src.args[1], dst):
            return t
        if dst.args[0] == 'labelled':
            return self.positional(t, src, dst.args[1])
        if src.args[0] == 'labelled':
            return self.positional(t, src.args[1], dst)
        gs, gd = gr(src), gr(dst)
        if gs == 'P' and timelike(dst):
            n = self.axlen(src)
            if TM.tkey(n) == TM.tkey(self.axlen(dst)):
                if not any(u is tim('pos') for u in subterms(t)):
                    return t

                def same(u):
                    if u.op == 'app' and u.args[0] == 'elem' and u.args[3] is tim('pos') and sameaxis(u.args[2], dst):
                        return u.args[1]
                    return u if u.op == 'app' and u.args[0] == 'elem' else None
                t = tdrewrite(t, same)
                return csubst(t, {tim("pos"): self.posof(dst)})
            return None
        if gs == 'P' and gd == 'P':
            return t if TM.tkey(self.axlen(src)) == TM.tkey(self.axlen(dst)) else None
        if timelike(src) and gd == 'P':
            return None
        # the entries of a shifted / filtered axis in the order of the other one
        if src.args[0] == 'athour' and sameaxis(src.args[1], dst):
            return athour(t, src.args[2])
        if dst.args[0] == 'athour' and sameaxis(dst.args[1], src):
            return t
        if src.args[0] == 'slice' and dst.args[0] == 'slice' and gr(src) == 'D' and sameaxis(src.args[1], dst.args[1]):
            a, b = src, dst
            if (a.args[2], a.args[3]) == (ONE, NONE) and b.args[2] is NONE and b.args[3] is num(-1):
                return self.shifted(t, src.args[1], 1)
            if (b.args[2], b.args[3]) == (ONE, NONE) and a.args[2] is NONE and a.args[3] is num(-1):
                return self.shifted(t, src.args[1], -1)
        if src.args[0] == 'shiftax' and sameaxis(src.args[1], dst):
            return moved(t, int(src.args[2].args[0]), 'c')
        if dst.args[0] == 'shiftax' and sameaxis(dst.args[1], src):
            return moved(t, -int(dst.args[2].args[0]), 'c')
        return None

    def shifted(self, t, axis, n):
        """value n entries later on a daily axis"""
        return moved(t, n, 'c' if axis.args[0] == 'span' else 'p')

    def plain(self, axis):
        """axis of the bare values"""
        return axis.args[1] if axis.args[0] == 'labelled' and gr(axis.args[1]) == 'P' else axis

    def posof(self, axis):
        k, a = axis.args[0], axis.args[1:]
        if gr(axis) == 'D':
            return app('posn', axis)
        if k in ('hourly', 'hourlyfill'):
            return add(mul(num(24), self.posof(dayaxis(axis))), HOUR)
        if k in ('grid', 'gridfill'):
            sec = add(mul(H, HOUR), mul(num(60), tim('minute')), tim('second'))
            return add(mul(div(DAYSEC, a[1]), self.posof(dayaxis(axis))), div(sec, a[1]))
        return app('posn', axis)

    # -- attributes ------------------------------------------------------------------

    def columns(self, o):
        return Lib('columns', items=[self.lib.keyval(n) for n, t in o.cols], frame=o, cls='pandas.Index')

    def hascol(self, o, name, a):
        if name is not None:
            if o.get(name) is not None:
                t = o.get(name)
                if t.op == 'g':
                    # column present on some paths only
                    def present(u):
                        if u.op == 'g':
                            return lor(land(u.args[0], present(u.args[1])), land(lnot(u.args[0]), present(u.args[2])))
                        return boolean(not (u.op == 'app' and u.args[0] == 'nocol'))
                    if any(u.op == 'app' and u.args[0] == 'nocol' for u in subterms(t)):
                        return present(t)
                return TRUE
            if o.open:
                return sym('has:%s.%s' % (o.open, name), 'obj')
            return FALSE
        if isinstance(a, S) and not o.open:
            return lor(*[cmp('eq', a.t, string(n)) for n, t in o.cols])
        return app('hascol', string(o.open or ''), a.t if isinstance(a, S) else opq('key'))

    def column(self, ref, o, name):
        t = o.get(name)
        if t is None:
            if o.open:
                t = col(o.open, name)
            else:
                self.dead('nokey', 'data frame has no column %s' % (name,))
        ser = Ser(o.axis, t, 'series', name=name)
        r = self.new(ser)
        return r

    def getattr(self, ref, o, name):
        i = self.i
        cn = clsname(o)
        if isinstance(o, Frm):
            if o.get(name) is not None:
                return self.column(ref, o, name)
            if o.open and not FRAMEATTR(name):
                i.event('column', (o.open, name))
                return self.column(ref, o, name)
            if not FRAMEATTR(name):
                i.note_api('method', cn, name)
                self.dead('noattr', 'data frame has no column or attribute %s' % name)
        i.note_api('method', cn, name)
        if several(o) and name in ('names', 'nlevels'):
            a = o.axis
            while a.args[0] != 'keys':
                a = a.args[1]
            n = len(a.args) - 2
            return S(num(n), 'int') if name == 'nlevels' else self.new(Lst([S(NONE, 'none')] * n))
        if isinstance(o, Idx):
            if name in TIMEATTR:
                return self.new(Ser(self.plain(o.axis), self.timeattr(o.axis, name), 'index'))
            if name in ('date',):
                return self.new(Ser(o.axis, DAY0 if timelike(o.axis) else app('dateof', self.tst(o.axis)), 'array', name='date'))
            if name in ('values', 'array'):
                return self.new(Ser(self.plain(o.axis), self.tst(o.axis), 'array'))
            if name in ('size',):
                return S(self.lib.length(o.axis), 'int')
            if name == 'shape':
                return Shape([S(self.lib.length(o.axis), 'int')], o.axis)
            if name in ('freq', 'freqstr', 'inferred_freq'):
                if o.axis.args[0] == 'span' and gr(o.axis) == 'D':
                    return S(string('D'), 'offset')
                if o.axis.args[0] in ('hourlyfill', 'gridfill', 'span', 'dr'):
                    return S(app('freqof', o.axis), 'offset')
                if 'freq' in self.i.facts:
                    f = self.i.facts['freq']
                    return S(string(f), 'offset') if f else S(NONE, 'none')
                return S(sym('freq:%s' % o.axis, 'obj'))
            if name == 'resolution':
                if 'resolution' in self.i.facts and gr(o.axis) in ('D', 'H'):
                    f = self.i.facts['resolution']
                    return S(string(f if isinstance(f, str) else 'day' if gr(o.axis) == 'D' else 'hour'), 'str')
                return S(sym('resolution:%s' % o.axis, 'obj'))
            if name in ('is_monotonic_increasing', 'is_unique', 'has_duplicates', 'is_monotonic_decreasing', 'is_monotonic'):
                if name in ('is_monotonic_increasing', 'is_unique') and 'increasing' in self.i.facts:
                    return S(boolean(self.i.facts['increasing']), 'bool')
                return S(sym('%s:%s' % (name, o.axis), 'obj'), 'bool')
            if name == 'name':
                return S(NONE, 'none')
            if name == 'names':
                return self.new(Lst([S(NONE, 'none')]))
            if name == 'tz':
                return S(NONE, 'none')
            if name == 'T':
                return ref
            if name == 'dtype':
                return S(sym('dtype', 'obj'))
            return Meth(ref, name)
        if isinstance(o, Ser):
            if name == 'index' and o.kind == 'series':
                return self.indexof(ref, o)
            if name in ('values', 'array'):
                return self.new(Ser(self.plain(o.axis), o.t, 'array', view=None))
            if name in ('loc', 'iloc', 'at', 'iat'):
                return Lib(name, obj=ref)
            if name == 'dt':
                return Lib('dt', obj=ref, cls='pandas.Series.dt')
            if name == 'str':
                return Lib('strs', obj=ref)
            if name == 'shape':
                return Shape([S(self.lib.length(o.axis), 'int')], o.axis)
            if name == 'size':
                return S(self.lib.length(o.axis), 'int')
            if name == 'ndim':
                return S(ONE, 'int')
            if name in ('empty',):
                return S(cmp('eq', self.lib.length(o.axis), ZERO), 'bool')
            if name == 'T':
                return ref
            if name == 'name':
                return S(string(o.name), 'str') if isinstance(o.name, str) else S(NONE, 'none')
            if name == 'dtype':
                return S(sym('dtype', 'obj'))
            if name == 'hasnans':
                return S(cmp('gt', app('count', o.axis, isnull(o.t)), ZERO), 'bool')
            return Meth(ref, name)
        if isinstance(o, Frm):
            if name == 'index':
                return self.indexof(ref, o)
            if name == 'columns':
                c = self.columns(o)
                c.owner = ref
                return c
            if name in ('loc', 'iloc', 'at', 'iat'):
                return Lib(name, obj=ref)
            if name == 'shape':
                return Tup([S(self.lib.length(o.axis), 'int'), S(num(len(o.cols)), 'int') if not o.open else S(app('ncols', o.open), 'int')])
            if name == 'values':
                if not o.open:
                    return Lib('cols2d', frame=o, cls='numpy.ndarray')
                return i.unsup('values of open frame')
            if name == 'empty':
                return S(cmp('eq', self.lib.length(o.axis), ZERO), 'bool')
            if name == 'T':
                if o.axis.args[0] == 'keys' or o.axis.args[0] == 'filter' and o.axis.args[1].args[0] == 'keys':
                    return Lib('bycolumns', axis=o.axis, cls='pandas.DataFrame')
                return i.unsup('transpose')
            return Meth(ref, name)
        if isinstance(o, Tab):
            if name in ('loc', 'iloc', 'at', 'iat'):
                return Lib(name, obj=ref)
            if name == 'values':
                return self.new(o.with_(kind='array'))
            if name == 'index':
                return Lib('tabindex', tab=ref, which='rows', cls='pandas.Index')
            if name == 'columns':
                return Lib('tabindex', tab=ref, which='cols', cls='pandas.Index')
            if name == 'T':
                return self.sharing(self.new(Tab(o.cols, o.rows, subst(o.t, {tim('row'): tim('col'), tim('col'): tim('row')}))), ref)
            return Meth(ref, name)
        return Meth(ref, name)

    def indexof(self, ref, o):
        og = (o.origin, 'index') if o.origin is not None else None
        if timelike(o.axis):
            return self.sharing(self.new(Idx(o.axis, origin=og, owner=ref)), ref)
        return self.sharing(self.new(Ser(o.axis, self.tst(o.axis), 'index', origin=og, name='$keys' if gr(o.axis) == 'K' else None)), ref)

    def sharing(self, r, ref):
        """result r has the index object of ref"""
        if isinstance(r, Ref) and isinstance(ref, Ref):
            self.i.ixof[r.id] = self.i.token(ref)
        return r

    def setattr(self, ref, o, name, v):
        i = self.i
        if isinstance(o, Frm):
            if name == 'index':
                self.lib.mutate(ref, 'index')
                return self.setindex(ref, o, v)
            if name == 'columns':
                self.lib.mutate(ref, 'columns')
                its = self.lib.iterate(v)
                if its is not None and not o.open and len(its) == len(o.cols):
                    i.store(ref, o.with_(cols=tuple((self.lib.dictkey(n), t) for n, (m, t) in zip(its, o.cols))))
                    return
                i.unsup('columns assignment')
                i.store(ref, o.with_(cols=tuple((n, opq('columns assignment')) for n, t in o.cols)))
                return
            if o.get(name) is not None or o.open:
                return self.setcol(ref, o, name, v)
            i.event('effect', ('newattr', name, ()))
            return
        if isinstance(o, Ser):
            if name == 'index':
                self.lib.mutate(ref, 'index')
                return self.setindex(ref, o, v)
            if name == 'name':
                self.lib.mutate(ref, 'name')
                i.store(ref, o.with_(name=v.t.args[0] if isinstance(v, S) and v.t.op == 'str' else None))
                return
            if name == 'values':
                i.unsup('values assignment')
                return
            return
        if isinstance(o, Idx):
            if name in ('name', 'names'):
                self.lib.mutate(ref, name)
            return
        if isinstance(o, Tab):
            if name in ('columns', 'index'):
                self.lib.mutate(ref, name)
                x = self.d(v)
                if not (isinstance(x, Lib) and x.kind == 'tabindex' and x.which == {'columns': 'cols', 'index': 'rows'}[name]):
                    i.unsup('new labels of a table')
                    i.store(ref, o.with_(t=opq('relabelled table')))
                return
        i.unsup('attribute assignment %s' % name)

    def setindex(self, ref, o, v):
        i = self.i
        x = self.d(v)
        if isinstance(x, Idx):
            na = x.axis
        elif isinstance(x, Ser):
            na = self.axis_from_labels(x)
        else:
            na = None
        if na is not None and sameaxis(na, o.axis):
            i.store(ref, o.with_(axis=na))
            return
        if na is None:
            i.unsup('index assignment')
            na = ax('unknown', string(i.fresh('ix')))

        def conv(t):
            p = self.relabel(t, o.axis, na, x)
            if p is None:
                i.unsup('index assignment')
                return opq('index assignment')
            return p
        if isinstance(o, Frm):
            if o.open:
                # remaining columns keep their names but live on the new axis
                i.store(ref, o.with_(axis=na, cols=tuple((n, conv(t)) for n, t in o.cols)))
                return
            i.store(ref, o.with_(axis=na, cols=tuple((n, conv(t)) for n, t in o.cols)))
        else:
            i.store(ref, o.with_(axis=na, t=conv(o.t)))

    def relabel(self, t, src, dst, lab):
        if isinstance(lab, Ser) and dst.args[0] == 'labelled':
            return t
        return self.positional(t, src, dst)

    def axis_from_labels(self, x):
        """axis made of the labels held in a vector"""
        if x.t is self.tst(x.axis) and (timelike(x.axis)):
            return x.axis
        if x.t is DAY0 and x.axis.args[0] == 'days':
            return x.axis
        if x.axis.args[0] == 'labelled' and x.t is x.axis.args[2]:
            return x.axis
        return ax('labelled', x.axis.args[1] if x.axis.args[0] == 'labelled' and x.axis.args[1].args[0] == 'rows' else x.axis, x.t)

    def setcol(self, ref, o, name, v):
        i = self.i
        self.lib.mutate(ref, 'column %s' % name)
        o = self.d(ref)
        x = self.d(v)
        if not o.cols and not o.open and o.axis.args[0] == 'empty' and isinstance(x, Ser):
            i.store(ref, o.with_(axis=x.axis, cols=((name, x.t),)))
            return
        t = self.value_on(v, o.axis)
        i.store(ref, o.set(name, t))

    def value_on(self, v, axis):
        """term of an assigned value on an axis (labels aligned, arrays by position)"""
        x = self.d(v)
        if isinstance(x, Opq):
            return opq(x.why)
        if isinstance(x, S):
            return x.t
        if isinstance(x, Alt):
            c = self.i.prune(x)
            if isinstance(c, Alt):
                return g(c.c, self.value_on(c.a, axis), self.value_on(c.b, axis))
            return self.value_on(c, axis)
        from .interp import AltH
        if isinstance(x, AltH):
            return g(x.c, self.value_obj(x.a, axis), self.value_obj(x.b, axis))
        return self.value_obj(x, axis)

    def value_obj(self, x, axis):
        from .interp import AltH
        if isinstance(x, AltH):
            return g(x.c, self.value_obj(x.a, axis), self.value_obj(x.b, axis))
        if isinstance(x, Idx):
            x = Ser(x.axis, self.tst(x.axis), 'index')
        if isinstance(x, Ser):
            if x.kind == 'series':
                t = self.on(x.t, x.axis, axis)
            else:
                t = self.positional(x.t, x.axis, axis)
            if t is None:
                self.i.unsup('value on other axis: %s for %s' % (x.axis, axis))
                return opq('alignment')
            return t
        if isinstance(x, Frm) and len(x.cols) == 1 and not x.open:
            t = self.on(x.cols[0][1], x.axis, axis)
            if t is not None:
                return t
        if isinstance(x, Arr) and len(x.cells) == 1:
            return x.cells[0]
        self.i.unsup('assigned value')
        return opq('assigned value')


FRAME_NAMES = None


def FRAMEATTR(name):
    """attribute of DataFrame itself (from the installed sources)"""
    global FRAME_NAMES
    if FRAME_NAMES is None:
        from . import api
        FRAME_NAMES = api.members('pandas.DataFrame')
    return name in FRAME_NAMES


def athour(t, h):
    """hourly term at a fixed hour of the day; None if it holds hourly data"""
    if h.op == 'num':
        for u in subterms(t):
            if u.op == 'col' and u.args[0] in HOURLY or u.op == 'app' and u.args[0] in ('hourin', 'rand', 'interp'):
                t2 = _atcol(t, h)
                return t2
    return csubst(t, {HOUR: h, tim("minute"): ZERO, tim("second"): ZERO})


def _atcol(t, h):
    def f(u):
        if u.op == 'col' and u.args[0] in HOURLY:
            return app('athour', h, u)
        if u.op == 'app' and u.args[0] in ('hourin', 'rand', 'interp'):
            return app('athour', h, u)
        if u is HOUR:
            return h
        if u in (tim('minute'), tim('second')):
            return ZERO
        if u.op == 'app' and u.args[0] in INNER + ('gagg',):
            return u
        return None
    return tdrewrite(t, f)
