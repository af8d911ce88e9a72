"""pandas model: indexing, operators."""
from .values import *
from . import terms as TM
from .axes import *
from .lib import clsname, Shape, isbool


def boolish(t):
    return t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull') or (t.op == 'g' and boolish(t.args[1]) and boolish(t.args[2])) \
        or (t.op == 'app' and t.args[0] in ('dayin', 'hourin', 'inspan', 'dayhas', 'islast', 'isfirst', 'inax', 'isin', 'substr', 'boolval')) \
        or (t.op == 'app' and t.args[0] == 'moved' and boolish(t.args[3]))


class Ops(object):
    # -- reading items ---------------------------------------------------------------

    def boolkey(self, k, axis, aligned=True):
        """condition of a boolean selector on an axis, or None"""
        o = self.d(k)
        if isinstance(o, Ser) and boolish(o.t):
            if o.kind == 'series' and aligned:
                t = o.t if sameaxis(o.axis, axis) else self.on(o.t, o.axis, axis)
            else:
                t = self.positional(o.t, o.axis, axis)
            return t
        if isinstance(o, Lst) and o.items and all(isinstance(x, S) and x.t.op == 'bool' for x in o.items):
            return None
        return None

    def strlist(self, k):
        o = self.d(k)
        its = None
        if isinstance(o, (Lst,)):
            its = o.items
        elif isinstance(o, Lib) and o.kind == 'columns' and not (o.frame is not None and o.frame.open):
            its = o.items
        if its is None:
            return None
        out = []
        for x in its:
            if not (isinstance(x, S) and x.t.op in ('str', 'num')):
                return None
            out.append(self.lib.dictkey(x))
        return out

    def sliceax(self, axis, k):
        lo = k.lo.t if isinstance(k.lo, S) else None
        hi = k.hi.t if isinstance(k.hi, S) else None
        st = k.step.t if isinstance(k.step, S) else None
        if lo is None or hi is None or st is None:
            return None
        if st is not NONE and st is not ONE:
            if st.op == 'num' and st.args[0] == -1 and lo is NONE and hi is NONE:
                return ax('rev', axis)
            return ax('slice', axis, lo, hi, st)
        if lo is ZERO:
            lo = NONE
        if lo is NONE and hi is NONE:
            return axis
        return ax('slice', axis, lo, hi)

    def getitem(self, ref, o, k):
        i = self.i
        kd = self.d(k)
        if isinstance(k, Opq):
            return k
        if isinstance(o, Frm):
            names = self.strlist(k)
            if names is not None:
                cols = []
                for n in names:
                    t = o.get(n)
                    if t is None:
                        if not o.open:
                            self.dead('nokey', 'data frame has no column %s' % n)
                        t = col(o.open, n)
                    cols.append((n, t))
                return self.new(Frm(o.axis, tuple(cols)))
            if isinstance(k, S) and k.t.op in ('str', 'num'):
                key = self.lib.dictkey(k)
                if o.open and o.get(key) is None:
                    i.event('column', (o.open, key))
                return self.column(ref, o, key)
            if isinstance(kd, Ser) and boolish(kd.t):
                c = self.boolkey(k, o.axis)
                if c is None:
                    return i.unsup('boolean selection')
                na = ax('filter', o.axis, c)
                return self.new(o.with_(axis=na, cols=tuple((n, self.given(t, mask(na))) for n, t in o.cols), origin=None, owner=None))
            if isinstance(kd, Lib) and kd.kind == 'slice':
                return self.rows_slice(ref, o, kd)
            if isinstance(k, S):
                if not o.open and o.cols:
                    r = None
                    ser = None
                    t = None
                    for n, u in reversed(o.cols):
                        t = u if t is None else g(cmp('eq', k.t, self.lib.keyval(n).t), u, t)
                    return self.new(Ser(o.axis, t, 'series'))
                return self.new(Ser(o.axis, app('colof', string(o.open or ''), k.t), 'series'))
            return i.unsup('frame subscript')
        if isinstance(o, Tab):
            if isinstance(k, S):
                return self.new(Ser(o.rows, csubst(o.t, {tim('col'): k.t, tim('row'): tim('key0')}), 'series'))
            its = self.lib.iterate(k)
            if its is not None and all(isinstance(x, S) and x.t.op in ('num', 'str') for x in its):
                r = self.tab_columns_of(o, [x.t for x in its])
                if r is not None:
                    return r
            return i.unsup('table subscript')
        if isinstance(o, Idx) and isinstance(kd, Lst) and kd.items and all(isinstance(x, Splice) and x.axis is o.axis for x in kd.items):
            return self.new(Idx(ax('filter', o.axis, lor(*[x.cond for x in kd.items]))))
        return self.ser_getitem(ref, o, k, kd, 'auto')

    def rows_slice(self, ref, o, kd):
        i = self.i
        lo, hi = kd.lo, kd.hi
        if not all(isinstance(x, S) for x in (lo, hi, kd.step)):
            return i.unsup('slice bounds')
        if self.islabel(lo) or self.islabel(hi):
            c = self.label_range(o.axis, lo, hi)
            if c is None:
                return i.unsup('label slice')
            na = ax('filter', o.axis, c)
        else:
            na = self.sliceax(o.axis, kd)
            if na is None:
                return i.unsup('slice')
        if isinstance(o, Idx):
            return self.new(Idx(na))
        if isinstance(o, Frm):
            return self.new(o.with_(axis=na, origin=None, owner=None))
        t = o.t
        if gr(o.axis) == 'P' and na.args[0] == 'slice' and not self.islabel(lo):
            l = lo.t
            if l is NONE:
                l = ZERO
            elif l.op == 'num' and l.args[0] < 0:
                l = add(self.axlen(o.axis), l)
            n = self.axlen_slice(o.axis, lo.t, hi.t)
            if n is not None and len(na.args) == 4:
                return self.new(Ser(self.lib.axis_of_len(n), csubst(o.t, {tim('pos'): add(tim('pos'), l)}), o.kind))
            step = na.args[4] if len(na.args) > 4 else None
            if step is not None and step.op == 'num' and step.args[0] > 0 and hi.t is NONE:
                n = fn('ceil', div(sub(self.axlen(o.axis), l), step))
                return self.new(Ser(self.lib.axis_of_len(n), csubst(o.t, {tim('pos'): add(mul(step, tim('pos')), l)}), o.kind))
        return self.new(Ser(na, t, o.kind, name=o.name))

    def axlen_slice(self, axis, lo, hi):
        n = self.axlen(axis)

        def pos(x, dflt):
            if x is NONE:
                return dflt
            if x.op == 'num' and x.args[0] < 0:
                return add(n, x)
            return x
        return sub(pos(hi, n), pos(lo, ZERO))

    def islabel(self, v):
        return isinstance(v, S) and (v.k in ('ts', 'str', 'date') or v.t.op == 'str')

    def label_range(self, axis, lo, hi):
        if not timelike(axis):
            return None
        st = self.tst(axis)
        cs = []
        for v, op in ((lo, 'ge'), (hi, 'le')):
            if isinstance(v, S) and v.t is NONE:
                continue
            if not isinstance(v, S) or v.k not in ('ts', 'date'):
                if isinstance(v, S) and v.t.op == 'app' and v.t.args[0] == 'iso':
                    d = v.t.args[1]
                    cs.append(cmp('ge', st, d) if op == 'ge' else cmp('lt', st, add(d, DAYSEC)))
                    continue
                return None
            cs.append(cmp(op, st, v.t))
        return land(*cs)

    def lookup(self, o, keys):
        """value of a key-indexed series for actual keys"""
        m = {tim('key%d' % j): k for j, k in enumerate(keys)}
        return csubst(o.t, m)

    def ser_getitem(self, ref, o, k, kd, how):
        """how: auto (label for series, position for arrays), loc, iloc"""
        i = self.i
        isser = isinstance(o, Ser) and o.kind == 'series'
        if isinstance(o, Idx):
            base = Ser(o.axis, self.tst(o.axis), 'index')
        else:
            base = o
        axis = o.axis

        def result(na, t):
            if isinstance(o, Idx):
                return self.new(Idx(na))
            return self.new(Ser(na, t, o.kind, name=o.name))
        if isinstance(kd, Lib) and kd.kind == 'ellipsis':
            return ref
        if isinstance(kd, Tup) and kd.items and all(isinstance(x, S) for x in kd.items) and gr(axis) == 'K':
            return S(self.lookup(o, [x.t for x in kd.items]))
        if isinstance(kd, Lib) and kd.kind == 'slice':
            return self.rows_slice(ref, o, kd)
        if isinstance(kd, Ser) and boolish(kd.t):
            c = self.boolkey(k, axis, aligned=isser and how != 'iloc')
            if c is None:
                return i.unsup('boolean selection: %s on %s' % (kd.axis, axis))
            na = ax('filter', axis, c)
            return result(na, self.given(base.t, mask(na)) if timelike(axis) else base.t)
        if isinstance(kd, Idx) and how != 'iloc':
            if isser:
                return self.by_index(o, kd.axis)
            return i.unsup('array indexed by labels')
        if isinstance(kd, Ser):
            # list of labels / positions
            if isser and how != 'iloc':
                return self.by_labels(o, kd)
            if gr(axis) == 'P':
                return self.new(Ser(kd.axis, csubst(o.t, {tim('pos'): kd.t}), o.kind))
            if isinstance(o, Idx) or not isser:
                return self.new(Ser(kd.axis, self.pushelem(base.t, axis, kd.t), base.kind))
            return i.unsup('positional selection')
        if isinstance(kd, Lib) and kd.kind == 'zip' and gr(axis) == 'K':
            return self.by_zip(o, kd)
        if isinstance(kd, Lib) and kd.kind == 'symlist':
            return result(ax('take', axis, string(str(id(kd)))), opq('positions'))
        if isinstance(kd, Lst):
            its = [self.lib.intval(x) if isinstance(x, S) else None for x in kd.items]
            if isser and how != 'iloc' and gr(axis) == 'K':
                ks = [x.t for x in kd.items if isinstance(x, S)]
                if len(ks) == len(kd.items):
                    return self.new(Arr((len(ks),), [self.lookup(o, [x]) for x in ks]))
            if None not in its and (not isser or how == 'iloc'):
                return self.new(Arr((len(its),), [self.at_pos(base, num(x)) for x in its]))
            return result(ax('take', axis, string(i.fresh('take'))), opq('selection'))
        if isinstance(kd, Arr) and not isser:
            return i.unsup('array index')
        if isinstance(k, S):
            if isser and how != 'iloc':
                return self.by_label(o, k)
            t = self.at_pos(base, k.t)
            if isinstance(o, Idx):
                return S(t, 'ts') if timelike(axis) else S(t)
            return S(t)
        return i.unsup('subscript')

    def by_label(self, o, k):
        i = self.i
        axis = o.axis
        if gr(axis) == 'K':
            return S(self.lookup(o, [k.t]))
        if not timelike(axis):
            if gr(axis) == 'P':
                return S(self.at_pos(o, k.t))
            if axis.args[0] == 'rows':
                return S(app('rowof', o.t, k.t))
            return i.unsup('label lookup')
        if k.k == 'str' or k.t.op == 'app' and k.t.args[0] == 'iso':
            if k.t.op == 'app' and k.t.args[0] == 'iso':
                day = k.t.args[1]
                if gr(axis) == 'D':
                    return self.by_label(o, S(day, 'ts'))
                if day is DAY0:
                    return self.new(Ser(ax('dayof', axis), o.t, 'series'))
            return i.unsup('text label')
        if k.k == 'date' or k.k == 'ts' or k.k is None:
            p = self.split_ts(k.t)
            if p is not None and p[0] is DAY0 and p[1] is not None:
                base, d, sec = p
                t = o.t
                if gr(axis) != 'D':
                    if sec.op == 'num' or True:
                        h = self.intpart(div(sec, H))
                        t = self.at_hour(t, h)
                        if t is None:
                            return i.unsup('label lookup')
                t = moved(t, d, 'c')
                m = moved(mask(axis), d, 'c') if d else mask(axis)
                gd = closure([c.args[0] if c.op == 'asm' else c for c in i.st.guard])
                if not all(c in gd or implies(land(*[x for x in gd]), c) for c in conj(m)):
                    i.event('maybenokey', m)
                return S(t)
            if p is not None and p[0].op == 'app' and p[0].args[0] == 'ts' and p[1] == 0:
                which = p[0].args[2]
                if sameaxis(p[0].args[1], dayaxis(axis)) or sameaxis(p[0].args[1], axis):
                    t = o.t
                    if gr(axis) != 'D':
                        t = self.at_hour(t, self.intpart(div(p[2], H)))
                    return S(self.endval(dayaxis(axis), which, t))
        return i.unsup('label lookup')

    def at_hour(self, t, h):
        from .libpd import athour
        return athour(t, h)

    def by_index(self, o, axis2):
        """series selected by the labels of another axis (KeyError if one is missing)"""
        i = self.i
        if sameaxis(o.axis, axis2):
            return self.new(o.with_(origin=None, view=None))
        m, m2 = mask(o.axis), mask(axis2)
        if gr(o.axis) == 'D' and gr(axis2) in ('H', 'M'):
            m = land(m, cmp('eq', HOUR, ZERO))
        if not implies(m2, m):
            i.event('maybenokey', lnot(m))
        t = self.on(o.t, o.axis, axis2)
        if t is None:
            return i.unsup('selection by index')
        return self.new(Ser(axis2, self.given(t, land(m2, m)) if implies(m2, m) else csubst(t, {}) if t is not None else t, 'series', name=o.name))

    def somecolumns(self, o, kd):
        """the columns of a frame for which a condition by column name holds"""
        keep = []
        for n, t in o.cols:
            c = csubst(kd.t, {tim('key0'): string(n)})
            k = True if c is TRUE else False if c is FALSE else self.i.known(c)
            if k is True:
                keep.append((n, t))
            elif k is not False:
                return self.i.unsup('columns selected by a condition')
        return self.new(Frm(o.axis, tuple(keep)))

    def by_labels(self, o, kd):
        """series selected by a vector of labels; result is labelled by them"""
        i = self.i
        axis = o.axis
        if gr(axis) == 'K':
            t = self.lookup(o, [kd.t])
            return self.new(Ser(kd.axis, t, 'series', view=('labels', kd.t)))
        if gr(axis) == 'D' and timelike(kd.axis):
            if kd.t is DAY0:
                m = mask(axis)
                m2 = closure(conj(mask(kd.axis)))
                if not implies(mask(kd.axis), m) and not (axis.args[0] == 'days' and sameaxis(axis.args[1], kd.axis)) \
                        and not implies(mask(kd.axis), mask(dayaxis(axis))):
                    i.event('maybenokey', m)
                return self.new(Ser(kd.axis, o.t, 'series', view=('labels', kd.t)))
            p = self.split_ts(kd.t)
            if p is not None and p[0] is DAY0 and p[1] is not None and p[2] is ZERO:
                return self.new(Ser(kd.axis, moved(o.t, p[1], 'c'), 'series', view=('labels', kd.t)))
        if timelike(axis) and kd.t is self.tst(axis):
            return self.by_index(o, kd.axis)
        if gr(axis) == 'P':
            return self.new(Ser(kd.axis, csubst(o.t, {tim('pos'): kd.t}), 'series'))
        return i.unsup('selection by labels')

    def by_zip(self, o, z):
        """key-indexed series looked up with tuples made by zip"""
        i = self.i
        keys = []
        axis = None
        for p in z.parts:
            x = self.d(p)
            if isinstance(x, Idx):
                x = Ser(x.axis, self.tst(x.axis), 'index')
            if not isinstance(x, Ser):
                return i.unsup('zip key')
            if axis is None:
                axis = x.axis
            elif not sameaxis(axis, x.axis):
                return i.unsup('zip key axes')
            keys.append(x.t)
        return self.new(Ser(axis, self.lookup(o, keys), 'series', view=('labels',)))

    def indexer_get(self, l, k):
        return self.lib.dist(lambda r: self.indexer_get1(l.kind, r, k), l.obj)

    def indexer_get1(self, kind, ref, k):
        i = self.i
        o = self.d(ref)
        kd = self.d(k)
        if isinstance(o, Lst):
            return i.unsup('indexer')
        if kind in ('at', 'iat'):
            kind = {'at': 'loc', 'iat': 'iloc'}[kind]
        if isinstance(o, Frm):
            if isinstance(kd, Tup) and len(kd.items) == 2:
                r, c = kd.items
                if kind == 'iloc':
                    n = self.lib.intval(c)
                    if n is None:
                        return i.unsup('iloc column')
                    if o.open:
                        if isinstance(r, S):
                            return S(app('cellat', string(o.open), r.t, num(n)))
                        return i.unsup('iloc column of open frame')
                    name = o.cols[n][0]
                    s = self.column(ref, o, name)
                else:
                    cd = self.d(c)
                    if isinstance(cd, Ser) and boolish(cd.t) and cd.axis.args[:2] == ('keys', 'columns') and not o.open:
                        s = self.somecolumns(o, cd)
                        if isinstance(s, Opq):
                            return s
                    else:
                        s = self.getitem(ref, o, c)
                so = self.d(s)
                rd = self.d(r)
                if isinstance(rd, Lib) and rd.kind == 'slice' and rd.lo.t is NONE and rd.hi.t is NONE:
                    return s
                if isinstance(so, Frm):
                    return self.indexer_get1(kind, s, r)
                return self.ser_getitem(s, so, r, rd, kind)
            if isinstance(kd, Idx) or (isinstance(kd, Ser)):
                if isinstance(kd, Ser) and boolish(kd.t):
                    return self.getitem(ref, o, k)
                if o.open and not o.cols:
                    if isinstance(kd, Idx) and sameaxis(kd.axis, o.axis):
                        return self.new(o.with_(origin=None, owner=None))
                    return self.new(Frm(kd.axis, o.cols, open=o.open))
                cols = []
                na = None
                for n, t in o.cols:
                    r = self.ser_getitem(ref, Ser(o.axis, t, 'series'), k, kd, kind)
                    ro = self.d(r)
                    if not isinstance(ro, Ser):
                        return r
                    na = ro.axis
                    cols.append((n, ro.t))
                return self.new(Frm(na if na is not None else kd.axis, tuple(cols), open=o.open))
            if isinstance(kd, Lib) and kd.kind == 'slice':
                if kind == 'iloc':
                    na = self.sliceax(o.axis, kd)
                    if na is None:
                        return i.unsup('iloc slice')
                    return self.new(o.with_(axis=na, origin=None, owner=None))
                return self.rows_slice(ref, o, kd)
            if isinstance(k, S):
                # one row
                cells = {}
                for n, t in o.cols:
                    r = self.ser_getitem(ref, Ser(o.axis, t, 'series'), k, kd, kind)
                    if not isinstance(r, S):
                        return r
                    cells[n] = r
                if o.open:
                    return i.unsup('row of open frame')
                return Lib('result', fields=dict((n, cells[n]) for n, t in o.cols), seq=[cells[n] for n, t in o.cols], cls='pandas.Series')
            return i.unsup('frame indexer')
        if isinstance(o, Tab):
            if isinstance(kd, Tup) and len(kd.items) == 2 and kind == 'loc':
                a, b = kd.items
                if isinstance(a, S) and isinstance(b, S):
                    return S(csubst(o.t, {tim('row'): a.t, tim('col'): b.t}))
                if isinstance(b, S) and isinstance(self.d(a), Lib):
                    return self.new(Ser(o.rows, csubst(o.t, {tim('col'): b.t, tim('row'): tim('key0')}), 'series'))
            if isinstance(k, S) and kind == 'loc':
                return self.new(Ser(o.cols, csubst(o.t, {tim('row'): k.t, tim('col'): tim('key0')}), 'series'))
            return i.unsup('table indexer')
        if isinstance(o, (Ser, Idx)):
            return self.ser_getitem(ref, o, k, kd, kind)
        if isinstance(o, Opq):
            return o
        return i.unsup('indexer on %s' % type(o).__name__)

    # -- writing items ----------------------------------------------------------------

    def setitem(self, ref, o, k, v):
        i = self.i
        kd = self.d(k)
        if isinstance(o, Frm):
            if isinstance(k, S) and (k.t.op in ('str', 'num')):
                return self.setcol(ref, o, self.lib.dictkey(k), v)
            names = self.strlist(k)
            if names is not None and isinstance(v, S):
                self.lib.mutate(ref, 'columns')
                for n in names:
                    o = o.set(n, v.t)
                i.store(ref, o)
                return
            self.lib.mutate(ref, 'items')
            if isinstance(kd, Ser) and boolish(kd.t):
                c = self.boolkey(k, o.axis)
                if c is not None and isinstance(v, S) and not o.open:
                    i.store(ref, o.with_(cols=tuple((n, g(c, v.t, t)) for n, t in o.cols)))
                    return
            if isinstance(kd, Frm) and isinstance(v, S) and not o.open and all(boolish(t) for n, t in kd.cols):
                cols = []
                for n, t in o.cols:
                    c = kd.get(n)
                    cols.append((n, g(c, v.t, t) if c is not None else t))
                i.store(ref, o.with_(cols=tuple(cols)))
                return
            i.unsup('frame item assignment')
            i.store(ref, o.with_(cols=tuple((n, opq('frame store')) for n, t in o.cols)))
            return
        if isinstance(o, Tab):
            self.lib.mutate(ref, 'items')
            i.unsup('table store')
            i.store(ref, o.with_(t=opq('table store')))
            return
        if isinstance(o, Idx):
            self.dead('badcall', 'Index does not support item assignment')
        return self.ser_setitem(ref, o, k, kd, v, 'auto')

    def hour_of_day(self, labels, axis):
        """hour in labels that stand for one fixed full hour of each of some days, on an hourly axis"""
        if labels.args[0] != 'labelled' or gr(labels.args[1]) != 'D' or axis.args[0] != 'hourly':
            return None
        d = csubst(labels.args[2], {DAY0: ZERO})
        if add(DAY0, d) is not labels.args[2] or d.op != 'num' or d.args[0] % 3600 or not 0 <= d.args[0] < 86400:
            return None
        return num(d.args[0] // 3600)

    def store_cond(self, ref, o, cond, v, src=None):
        """o[cond] = v; src: axis on which array values are laid out"""
        t = self.stored(o, cond, v, src)
        self.i.store(ref, self.d(ref).with_(t=t))

    def stored(self, o, cond, v, src=None):
        x = self.d(v)
        i = self.i
        from .interp import AltH
        if isinstance(x, (Alt, AltH)):
            c = x.c
            return g(c, self.stored(o, cond, self.side(v, x, True), src), self.stored(o, cond, self.side(v, x, False), src))
        if isinstance(x, Opq):
            return g(cond, opq(x.why), o.t)
        if isinstance(x, S):
            t = x.t
        elif isinstance(x, Ser) and x.kind == 'series' and o.kind == 'series':
            t = self.on(x.t, x.axis, ax('filter', o.axis, cond) if timelike(o.axis) else o.axis)
            if t is None:
                t = self.on(x.t, x.axis, o.axis)
        elif isinstance(x, (Ser, Idx)):
            if isinstance(x, Idx):
                x = Ser(x.axis, self.tst(x.axis), 'index')
            dst = src if src is not None else ax('filter', o.axis, cond)
            t = x.t if sameaxis(x.axis, dst) else self.positional(x.t, x.axis, dst)
            if t is None and gr(x.axis) == 'P' and x.t.op == 'num':
                t = x.t
        elif isinstance(x, Arr) and len(x.cells) == 1:
            t = x.cells[0]
        else:
            t = None
        if t is None:
            i.unsup('stored value')
            t = opq('stored value')
        t = self.under(t, cond)
        if cond is TRUE:
            return t
        return g(cond, t, o.t)

    def side(self, v, x, first):
        if isinstance(x, Alt):
            return x.a if first else x.b
        return self.new(x.a if first else x.b)

    def under(self, t, cond):
        """simplify values of the first / last entry where that entry is meant"""
        ends = {}
        for c in conj(cond):
            if c.op == 'app' and c.args[0] in ('islast', 'isfirst') and c.args[2] == 0:
                ends[(c.args[1], 'last' if c.args[0] == 'islast' else 'first')] = True
        if not ends:
            return t

        def f(u):
            if u.op == 'app' and u.args[0] == 'at' and (u.args[1], u.args[2]) in ends:
                return u.args[3]
            return None
        return rewrite(t, f)

    def ser_setitem(self, ref, o, k, kd, v, how):
        i = self.i
        self.lib.mutate(ref, 'items')
        o = self.d(ref)
        axis = o.axis
        isser = o.kind == 'series'
        if isinstance(k, Opq):
            i.store(ref, o.with_(t=opq(k.why)))
            return
        if isinstance(kd, Lib) and kd.kind == 'ellipsis':
            return self.store_cond(ref, o, TRUE, v, axis)
        if isinstance(kd, Lib) and kd.kind == 'slice':
            if not all(isinstance(x, S) for x in (kd.lo, kd.hi, kd.step)):
                i.unsup('slice bounds')
                i.store(ref, o.with_(t=opq('slice bounds')))
                return
            if kd.lo.t is NONE and kd.hi.t is NONE and (kd.step is None or kd.step.t is NONE):
                return self.store_cond(ref, o, TRUE, v, axis)
            if self.islabel(kd.lo) or self.islabel(kd.hi):
                c = self.label_range(axis, kd.lo, kd.hi)
                if c is not None:
                    return self.store_cond(ref, o, c, v)
                i.unsup('label slice store')
                i.store(ref, o.with_(t=opq('label slice store')))
                return
            return self.store_slice(ref, o, kd, v)
        if isinstance(kd, Ser) and boolish(kd.t):
            c = self.boolkey(k, axis, aligned=isser and how != 'iloc')
            if c is None:
                i.unsup('boolean store')
                i.store(ref, o.with_(t=opq('boolean store')))
                return
            return self.store_cond(ref, o, c, v, ax('filter', axis, c))
        if isinstance(kd, Idx) and isser:
            h = self.hour_of_day(kd.axis, axis)
            x = self.d(v)
            if h is not None and not (isinstance(x, Ser) and x.kind == 'series'):
                inner = kd.axis.args[1]
                keep = [c for c in conj(mask(inner)) if not implies(mask(axis), c)]
                return self.store_cond(ref, o, land(cmp('eq', HOUR, h), *keep), v, inner)
            m = mask(kd.axis)
            gk, ga = gr(kd.axis), gr(axis)
            if gk == 'D' and ga != 'D':
                m = land(m, cmp('eq', HOUR, ZERO))
            if not (timelike(kd.axis) and timelike(axis)):
                i.unsup('store by index')
                i.store(ref, o.with_(t=opq('store by index')))
                return
            keep = [c for c in conj(m) if not implies(mask(axis), c)]
            return self.store_cond(ref, o, land(*keep), v, kd.axis)
        if isinstance(k, S):
            if isser and how != 'iloc':
                return self.store_label(ref, o, k, v)
            return self.store_pos(ref, o, k, v)
        if isinstance(kd, Ser) and isser and timelike(kd.axis) and gr(axis) == 'D' and kd.t is DAY0:
            return self.store_cond(ref, o, mask(kd.axis), v, kd.axis)
        i.unsup('store with %s' % type(kd).__name__)
        i.store(ref, o.with_(t=opq('store')))

    def store_slice(self, ref, o, kd, v):
        i = self.i
        lo, hi = kd.lo.t, kd.hi.t
        axis = o.axis
        if kd.step is not None and kd.step.t is not NONE and kd.step.t is not ONE:
            step = kd.step.t
            if gr(axis) == 'P' and step.op == 'num' and hi is NONE and (lo is NONE or lo.op == 'num'):
                l = ZERO if lo is NONE else lo
                c = cmp('eq', fn('mod', tim('pos'), step), l)
                x = self.d(v)
                q = fn('floordiv', sub(tim('pos'), l), step)
                if isinstance(x, S):
                    t = x.t
                elif isinstance(x, Ser) and gr(x.axis) == 'P':
                    t = csubst(x.t, {tim('pos'): q})
                elif isinstance(x, Ser) and timelike(x.axis):
                    t = self.pushelem(x.t, x.axis, q)
                else:
                    t = opq('strided store')
                i.store(ref, o.with_(t=g(c, t, o.t)))
                return
            i.unsup('strided store')
            i.store(ref, o.with_(t=opq('strided store')))
            return
        if timelike(axis):
            c = endcond(axis, lo, hi)
            if c is not None:
                return self.store_cond(ref, o, c, v, ax('slice', axis, NONE if lo is ZERO else lo, hi))
        if gr(axis) == 'P':
            pos = tim('pos')
            n = self.axlen(axis)
            cs = []
            l = ZERO
            if lo is not NONE:
                l = add(n, lo) if lo.op == 'num' and lo.args[0] < 0 else lo
                cs.append(cmp('ge', pos, l))
            if hi is not NONE:
                h = add(n, hi) if hi.op == 'num' and hi.args[0] < 0 else hi
                cs.append(cmp('lt', pos, h))
            x = self.d(v)
            if isinstance(x, Ser) and gr(x.axis) == 'P':
                t = csubst(x.t, {pos: sub(pos, l)})
                i.store(ref, o.with_(t=g(land(*cs), t, o.t)))
                return
            return self.store_cond(ref, o, land(*cs), v)
        i.unsup('slice store')
        i.store(ref, o.with_(t=opq('slice store')))

    def store_label(self, ref, o, k, v):
        i = self.i
        axis = o.axis
        if gr(axis) == 'K':
            return self.store_cond(ref, o, cmp('eq', tim('key0'), k.t), v)
        if timelike(axis):
            if k.t.op == 'app' and k.t.args[0] == 'iso' and gr(axis) != 'D':
                p = self.split_ts(k.t.args[1])
                if p is not None and p[0] is DAY0 and p[1] == 0:
                    return self.store_cond(ref, o, TRUE, v, ax('dayof', axis))
            p = self.split_ts(k.t) if k.k in ('ts', 'date', None) else None
            if p is not None and p[0] is DAY0 and p[1] is not None:
                c = cmp('eq', self.tst(axis), k.t)
                if gr(axis) == 'D':
                    c = cmp('eq', k.t, DAY0)
                return self.store_cond(ref, o, c, v)
            if p is not None and p[0].op == 'app' and p[0].args[0] == 'ts' and p[1] == 0:
                b = p[0].args[1]
                nm = 'islast' if p[0].args[2] == 'last' else 'isfirst'
                dx = dayaxis(axis)
                if sameaxis(b, TM.endaxis(axis)) or sameaxis(b, TM.endaxis(dx)):
                    c = app(nm, dx, 0)
                    if gr(axis) != 'D':
                        c = land(c, cmp('eq', HOUR, self.intpart(div(p[2], H))))
                    return self.store_cond(ref, o, c, v)
        if gr(axis) == 'P':
            return self.store_pos(ref, o, k, v)
        i.unsup('label store')
        i.store(ref, o.with_(t=opq('label store')))

    def store_pos(self, ref, o, k, v):
        i = self.i
        axis = o.axis
        if i.loops.record_write(ref, o, k, v):
            return
        n = self.lib.intval(k)
        if gr(axis) == 'P':
            p = k.t
            if n is not None and n < 0:
                p = add(self.axlen(axis), p)
            return self.store_cond(ref, o, cmp('eq', tim('pos'), p), v)
        if gr(axis) == 'D' and n in (0, -1):
            return self.store_cond(ref, o, app('isfirst' if n == 0 else 'islast', axis, 0), v)
        if subdaily(axis) and n in (0, -1) and axis.args[0] in ('hourly', 'hourlyfill'):
            c = app('isfirst' if n == 0 else 'islast', dayaxis(axis), 0)
            return self.store_cond(ref, o, land(c, cmp('eq', HOUR, num(0 if n == 0 else 23))), v)
        i.unsup('positional store')
        i.store(ref, o.with_(t=opq('positional store')))

    def indexer_set(self, l, k, v):
        return self.lib.dist(lambda r: self.indexer_set1(l.kind, r, k, v), l.obj)

    def indexer_set1(self, kind, ref, k, v):
        i = self.i
        o = self.d(ref)
        if kind in ('at', 'iat'):
            kind = {'at': 'loc', 'iat': 'iloc'}[kind]
        kd = self.d(k)
        if isinstance(o, Ser):
            return self.ser_setitem(ref, o, k, kd, v, kind)
        if isinstance(o, Frm):
            if isinstance(kd, Tup) and len(kd.items) == 2:
                r, c = kd.items
                self.lib.mutate(ref, 'items')
                if kind == 'iloc':
                    n = self.lib.intval(c)
                    names = [o.cols[n][0]] if n is not None and not o.open and -len(o.cols) <= n < len(o.cols) else None
                elif isinstance(c, S) and c.t.op == 'str':
                    names = [c.t.args[0]]
                elif isinstance(self.d(c), Lib) and self.d(c).kind == 'slice' and not o.open:
                    names = [n for n, t in o.cols]
                elif isinstance(c, S) and not o.open:
                    # column chosen by a symbolic name
                    for n, t in o.cols:
                        tmp = self.new(Ser(o.axis, t, 'series'))
                        self.ser_setitem(tmp, self.d(tmp), r, self.d(r), v, kind)
                        o = self.d(ref).set(n, g(cmp('eq', c.t, self.lib.keyval(n).t), self.d(tmp).t, t))
                        i.store(ref, o)
                    return
                else:
                    names = self.strlist(c)
                if names is None:
                    i.unsup('frame store')
                    i.store(ref, o.with_(cols=tuple((n, opq('frame store')) for n, t in o.cols)))
                    return
                for n in names:
                    o = self.d(ref)
                    t = o.get(n)
                    if t is None:
                        t = col(o.open, n) if o.open else NANT
                    tmp = self.new(Ser(o.axis, t, 'series'))
                    self.ser_setitem(tmp, self.d(tmp), r, self.d(r), v, kind)
                    i.store(ref, self.d(ref).set(n, self.d(tmp).t))
                return
            if isinstance(kd, Lib) and kd.kind == 'slice' and isinstance(v, S) and not o.open:
                self.lib.mutate(ref, 'items')
                for n, t in o.cols:
                    tmp = self.new(Ser(o.axis, t, 'series'))
                    self.ser_setitem(tmp, self.d(tmp), k, kd, v, kind)
                    i.store(ref, self.d(ref).set(n, self.d(tmp).t))
                return
            self.lib.mutate(ref, 'items')
            vs = self.d(v)
            if isinstance(vs, (Tup, Lst, Arr)) and isinstance(k, S) and not o.open and gr(o.axis) in ('K', 'D', 'H'):
                its = self.lib.iterate(v)
                if its is not None and len(its) == len(o.cols):
                    for (n, t), x in zip(o.cols, its):
                        tmp = self.new(Ser(o.axis, t, 'series'))
                        self.ser_setitem(tmp, self.d(tmp), k, kd, x, kind)
                        i.store(ref, self.d(ref).set(n, self.d(tmp).t))
                    return
            if (isinstance(kd, (Idx, Ser)) or isinstance(k, S)) and isinstance(v, S) and not o.open:
                for n, t in o.cols:
                    tmp = self.new(Ser(o.axis, t, 'series'))
                    self.ser_setitem(tmp, self.d(tmp), k, kd, v, kind)
                    i.store(ref, self.d(ref).set(n, self.d(tmp).t))
                return
        if isinstance(o, Opq):
            return
        if isinstance(o, Tab):
            self.lib.mutate(ref, 'items')
            i.store(ref, o.with_(t=opq('indexer store')))
        i.unsup('indexer store')

    # -- operators -----------------------------------------------------------------------

    def compare(self, op, a, b):
        return self.binop('Cmp', lambda x, y: cmp(op, x, y), a, b)

    def binop(self, op, f, a, b):
        r = self.binop1(op, f, a, b)
        ro = self.d(r)
        for x in (a, b):
            o = self.d(x)
            if isinstance(o, Ser) and o.kind == 'series' or isinstance(o, (Frm, Tab)):
                if isinstance(ro, (Ser, Frm)) and isinstance(o, (Ser, Frm)) and ro.axis is o.axis or isinstance(ro, Tab) and isinstance(o, Tab):
                    self.sharing(r, x)
                break
        return r

    def binop1(self, op, f, a, b):
        i = self.i
        oa, ob = self.d(a), self.d(b)
        if f is None:
            return i.unsup('operator %s' % op)
        if isinstance(oa, Tab) or isinstance(ob, Tab):
            return self.tab_op(f, a, oa, b, ob)
        if isinstance(oa, Frm) or isinstance(ob, Frm):
            return self.frm_op(f, a, oa, b, ob)
        if isinstance(oa, Idx) or isinstance(ob, Idx):
            r = self.idx_op(op, f, a, oa, b, ob)
            if r is not None:
                return r
            oa = Ser(oa.axis, self.tst(oa.axis), 'index') if isinstance(oa, Idx) else oa
            ob = Ser(ob.axis, self.tst(ob.axis), 'index') if isinstance(ob, Idx) else ob
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            def f(x, y, f0=f):
                return f0(self.asbool(x), self.asbool(y))
        if isinstance(oa, S) or isinstance(ob, S):
            s, v = (oa, ob) if isinstance(oa, S) else (ob, oa)
            if s.k == 'none' and op not in ('Cmp',):
                self.dead('badcall', 'operator %s on None' % op)
            if s.k == 'str' and op != 'Cmp':
                return i.unsup('string operator on vector')
            t = f(s.t, v.t) if s is oa else f(v.t, s.t)
            return self.new(Ser(v.axis, t, 'array' if v.kind == 'list' or (v.kind == 'index' and op == 'Cmp') else v.kind, name=v.name))
        if isinstance(oa, Lib) and oa.kind in ('symlist', 'rows'):
            return i.unsup('operator on list')
        if isinstance(oa, (Arr, Lst, Tup)) or isinstance(ob, (Arr, Lst, Tup)):
            w, v = (oa, ob) if isinstance(oa, (Arr, Lst, Tup)) else (ob, oa)
            arr = self.lib.to_arr(a if w is oa else b)
            if arr is not None and len(arr.cells) == 1:
                t = f(arr.cells[0], v.t) if w is oa else f(v.t, arr.cells[0])
                return self.new(v.with_(t=t, origin=None, view=None))
            return i.unsup('vector with short array')
        if not (isinstance(oa, Ser) and isinstance(ob, Ser)):
            return i.unsup('operator on %s and %s' % (type(oa).__name__, type(ob).__name__))
        la, lb = oa.kind == 'series', ob.kind == 'series'
        if la and lb:
            if oa.view and oa.view[0] == 'labels' or ob.view and ob.view[0] == 'labels':
                # labels other than the axis: only usable position by position
                if not (oa.view and ob.view and sameaxis(oa.axis, ob.axis)):
                    return i.unsup('operator on series with repeated labels')
            na = self.join(oa.axis, ob.axis)
            if na is None:
                for x, y in ((oa, ob), (ob, oa)):
                    if x.axis.args[0] == 'disjoint' and y.axis in x.axis.args:
                        return self.new(Ser(x.axis, NANT, 'series'))
                if any(timelike(x) and y.args[:2] == ('keys', 'lvl') for x, y in ((oa.axis, ob.axis), (ob.axis, oa.axis))):
                    # no time stamp is among the months or hours
                    i.event('nomatch', '%s and %s have no label in common' % (oa.axis, ob.axis))
                    return self.new(Ser(ax('disjoint', oa.axis, ob.axis), NANT, 'series'))
                return i.unsup('operands on different axes: %s and %s' % (oa.axis, ob.axis))
            ta, tb = self.on(oa.t, oa.axis, na), self.on(ob.t, ob.axis, na)
            if ta is None or tb is None:
                return i.unsup('alignment')
            if op == 'Cmp' and not sameaxis(oa.axis, ob.axis):
                i.event('badcall', 'comparison of series with different labels')
            return self.new(Ser(na, f(ta, tb), 'series'))
        if la or lb:
            s, v = (oa, ob) if la else (ob, oa)
            t = self.positional(v.t, v.axis, s.axis)
            if t is None:
                return i.unsup('vectors on different axes: %s and %s' % (v.axis, s.axis))
            r = f(s.t, t) if la else f(t, s.t)
            return self.new(Ser(s.axis, r, 'series', name=s.name, view=s.view))
        # two unlabelled vectors
        na = oa.axis
        ta, tb = oa.t, ob.t
        if not sameaxis(oa.axis, ob.axis):
            t = self.positional(ob.t, ob.axis, oa.axis)
            if t is not None:
                tb = t
            else:
                t = self.positional(oa.t, oa.axis, ob.axis)
                if t is None:
                    return i.unsup('vectors on different axes: %s and %s' % (oa.axis, ob.axis))
                ta, na = t, ob.axis
        kind = 'index' if 'index' in (oa.kind, ob.kind) and op not in ('Cmp', 'Fn') else 'array'
        return self.new(Ser(na, f(ta, tb), kind))

    def asbool(self, t):
        return t

    def idx_op(self, op, f, a, oa, b, ob):
        """time index plus/minus something"""
        i = self.i
        if op in ('Add', 'Sub'):
            idx, other = (oa, ob) if isinstance(oa, Idx) else (ob, oa)
            if isinstance(other, S) and other.k == 'td' and (isinstance(oa, Idx)):
                if other.t.op == 'num':
                    c = other.t.args[0] * (1 if op == 'Add' else -1)
                    if c % 86400 == 0:
                        return self.new(Idx(self.shiftax(idx.axis, int(c // 86400))))
                    if gr(idx.axis) == 'D' and 0 < c < 86400 and c % 3600 == 0:
                        return self.new(Idx(ax('athour', idx.axis, num(c / 3600))))
                    if idx.axis.args[0] == 'labelled':
                        return self.new(Idx(ax('labelled', idx.axis.args[1], add(idx.axis.args[2], num(c)))))
                return i.unsup('index shifted')
            if isinstance(other, S) and other.k == 'ts' and op == 'Sub' and isinstance(oa, Idx):
                return self.new(Ser(idx.axis, sub(self.tst(idx.axis), other.t), 'index'))
        if op == 'Cmp':
            return None
        return None

    def shiftax(self, axis, n):
        if n == 0:
            return axis
        if axis.args[0] == 'shiftax':
            return self.shiftax(axis.args[1], int(axis.args[2].args[0]) + n)
        return ax('shiftax', axis, num(n))

    def tab_op(self, f, a, oa, b, ob):
        i = self.i
        if isinstance(oa, Tab) and isinstance(ob, Tab):
            if oa.rows is ob.rows and oa.cols is ob.cols:
                return self.new(Tab(oa.rows, oa.cols, f(oa.t, ob.t), kind='frame' if 'frame' in (oa.kind, ob.kind) else 'array'))
            return i.unsup('tables of different shape')
        if isinstance(oa, Tab):
            o, x, flip = oa, ob, False
        else:
            o, x, flip = ob, oa, True
        if isinstance(x, S):
            t = x.t
        elif isinstance(x, Ser) and gr(x.axis) == 'K':
            if x.axis is not o.cols and not sameaxis(x.axis, o.cols):
                return i.unsup('table and series')
            t = csubst(x.t, {tim('key0'): tim('col')})
        else:
            return i.unsup('table operand')
        return self.new(Tab(o.rows, o.cols, f(t, o.t) if flip else f(o.t, t), kind=o.kind))

    def frm_op(self, f, a, oa, b, ob):
        i = self.i
        if isinstance(oa, Frm) and isinstance(ob, Frm):
            if sameaxis(oa.axis, ob.axis) and not oa.open and not ob.open:
                names = [n for n, t in oa.cols] + [n for n, t in ob.cols if oa.get(n) is None]
                return self.new(Frm(oa.axis, tuple((n, f(oa.get(n), ob.get(n)) if oa.get(n) is not None and ob.get(n) is not None else NANT) for n in names)))
            return i.unsup('frames')
        o, x, flip = (oa, ob, False) if isinstance(oa, Frm) else (ob, oa, True)
        if isinstance(x, S):
            if o.open:
                return self.new(Frm(o.axis, tuple((n, f(x.t, t) if flip else f(t, x.t)) for n, t in o.cols),
                                    open=self.derived_frame(o, lambda t: f(x.t, t) if flip else f(t, x.t))))
            return self.new(Frm(o.axis, tuple((n, f(x.t, t) if flip else f(t, x.t)) for n, t in o.cols)))
        its = self.lib.iterate(b if x is ob else a) if not isinstance(x, (Ser, Frm)) else None
        if its is not None and not o.open and len(its) == len(o.cols) and all(isinstance(y, S) for y in its):
            return self.new(Frm(o.axis, tuple((n, f(y.t, t) if flip else f(t, y.t)) for (n, t), y in zip(o.cols, its))))
        if its is not None and not o.open and isinstance(x, Lst) and len(its) != len(o.cols) and all(isinstance(y, S) for y in its):
            i.event('badcall', '%d values for %d columns' % (len(its), len(o.cols)))
            from .interp import Dead
            raise Dead('ValueError')
        if isinstance(x, Ser) and gr(x.axis) == 'K' and not o.open:
            return self.new(Frm(o.axis, tuple((n, (lambda w: f(w, t) if flip else f(t, w))(csubst(x.t, {tim('key0'): string(n)}))) for n, t in o.cols)))
        if isinstance(x, Lib) and x.kind in ('symlist', 'symvec'):
            # one factor per column, known only by its position
            vec = x
            return self.new(Frm(o.axis, tuple((n, opq('column factor')) for n, t in o.cols),
                                open=self.derived_frame(o, None, ('percolumn', vec))))
        return i.unsup('frame operand')

    def derived_frame(self, o, f, tag=None):
        """open frame whose unnamed columns were transformed: a new source name"""
        src = i_name = self.i.fresh('%s~' % o.open)
        self.i.derived = getattr(self.i, 'derived', {})
        self.i.derived[src] = (o.open, f, tag, self.i.where())
        if o.open in HOURLY:
            HOURLY.add(src)
        return src

    # -- helpers used by numpy models ------------------------------------------------

    def aggaxis(self, o):
        if o.axis.args[0] == 'filter':
            return ax('filter', self.plain(o.axis.args[1]), *o.axis.args[2:])
        return self.plain(o.axis)

    def aggterm(self, o):
        return o.t

    def isin(self, a, b):
        i = self.i
        oa, ob = self.d(a), self.d(b)
        if isinstance(oa, Idx):
            oa = Ser(oa.axis, self.tst(oa.axis), 'index')
        if isinstance(ob, Idx):
            ob = Ser(ob.axis, self.tst(ob.axis), 'index')
        if isinstance(oa, Ser) and isinstance(ob, Ser):
            if oa.t is DAY0 and ob.t is DAY0 and timelike(ob.axis):
                c = mask(dayaxis(ob.axis))
                return self.new(Ser(oa.axis, c, 'array' if oa.kind != 'series' else 'series'))
            if oa.t is self.tst(oa.axis) and ob.t is self.tst(ob.axis) and gr(oa.axis) == gr(ob.axis):
                return self.new(Ser(oa.axis, mask(ob.axis), 'array' if oa.kind != 'series' else 'series'))
            return i.unsup('isin')
        its = self.lib.iterate(b)
        if isinstance(oa, Ser) and its is not None and all(isinstance(x, S) for x in its):
            return self.new(Ser(oa.axis, lor(*[cmp('eq', oa.t, x.t) for x in its]) if its else FALSE, 'array' if oa.kind != 'series' else 'series'))
        if isinstance(oa, Ser) and isinstance(ob, (Symo, S)):
            return self.new(Ser(oa.axis, app('isin', oa.t, ob.t), 'array' if oa.kind != 'series' else 'series'))
        return i.unsup('isin')

    def clip_vec(self, v, lo, hi):
        r = v
        for x, op in ((lo, 'lt'), (hi, 'gt')):
            if x is None or (isinstance(x, S) and x.t is NONE):
                continue
            r = self.binop('Fn', lambda p, q, op=op: g(cmp(op, p, q), q, p), r, x)
        return r
