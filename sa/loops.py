"""Summaries of loops and comprehensions over sequences of unknown length."""
import ast
import collections

from .values import *
from . import terms as TM
from .axes import *
from .interp import Out, Dead, AltH, Frame, assigned_names

TM.APPFLAGS['rand'] = ('nonan', 'unit')
TM.APPFLAGS['sum'] = ()


Cut = collections.namedtuple('Cut', 'name axis term summary')


class Summary(object):
    """one iteration of a loop as a function of the loop variable and the state before it"""

    def __init__(self):
        self.var = None
        self.lo = self.hi = self.step = None
        self.names = {}    # name -> (initial term, prev symbol, next term)
        self.cells = {}    # (heap id, position) -> (initial, prev, next)
        self.writes = []   # (heap id, index term, value term, condition)
        self.appends = []  # (heap id, value, condition)
        self.breaks = []   # conditions
        self.returns = []  # conditions
        self.where = None
        self.stack = ()
        self.final = {}


class Loops(object):
    def __init__(self, interp):
        self.i = interp
        self.active = []   # contexts of symbolic loops being summarised
        self.vars = []
        self.daydepth = 0
        self.ndraw = 0
        self.summaries = []
        self.cuts = []      # contents of vectors that were given a name

    @property
    def lib(self):
        return self.i.lib

    @property
    def pd(self):
        return self.i.pd

    # -- random draws --------------------------------------------------------------------

    def draw_name(self, name):
        self.ndraw += 1
        return 'rnd%d' % self.ndraw

    def draw_term(self, tag):
        if self.vars:
            return app('rand', tag, *self.vars)
        if self.daydepth:
            return app('rand', tag, DAY0)
        return sym(tag, 'nonan', 'unit')

    # -- dispatch ------------------------------------------------------------------------

    def symbolic_for(self, s, it, fr):
        i = self.i
        it0 = i.prune(it) if isinstance(it, Alt) else it
        if isinstance(it0, Alt):
            return self.alternatives(s, it0, fr)
        o = i.deref(it0)
        try:
            if isinstance(o, AltH):
                return self.give_up(s, fr, 'loop over alternatives')
            if isinstance(o, Idx) and gr(o.axis) == 'D':
                return self.days(s, fr, o.axis, lambda: S(DAY0, 'ts'))
            if isinstance(o, Ser) and o.kind == 'index' and gr(o.axis) == 'D' and o.t is DAY0:
                return self.days(s, fr, o.axis, lambda: S(DAY0, 'ts'))
            if isinstance(o, Lib) and o.kind == 'items':
                so = i.deref(o.obj)
                if isinstance(so, Ser) and gr(so.axis) == 'D':
                    return self.days(s, fr, so.axis, lambda: Tup([S(DAY0, 'ts'), S(so.t)]))
            if isinstance(o, Lib) and o.kind == 'zip':
                ps = [i.deref(p) for p in o.parts]
                if all(isinstance(p, (Idx, Ser)) and gr(p.axis) == 'D' for p in ps) and all(sameaxis(p.axis, ps[0].axis) for p in ps):
                    return self.days(s, fr, ps[0].axis, lambda: Tup([S(DAY0, 'ts') if isinstance(p, Idx) else S(p.t) for p in ps]))
                ps = self.positions(o)
                if ps is not None:
                    return self.ranged(s, fr, ps[0], ps[1], ONE, ps[2])
            if isinstance(o, Lib) and o.kind == 'filtered':
                guard = ast.copy_location(ast.Name(id='$filter', ctx=ast.Load()), s)
                s2 = ast.copy_location(ast.For(
                    target=ast.copy_location(ast.Tuple(elts=[s.target, ast.copy_location(ast.Name(id='$filter', ctx=ast.Store()), s)], ctx=ast.Store()), s),
                    iter=s.iter, body=[ast.copy_location(ast.If(test=guard, body=s.body, orelse=[]), s)], orelse=s.orelse), s)
                return self.ranged(s2, fr, o.lo, o.hi, ONE, lambda k: Tup([o.item(k), S(subst(o.cond, {o.var: k}), 'bool')]))
            if isinstance(o, Lib) and o.kind == 'enumerate':
                so = i.deref(o.seq)
                t = s.target
                if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) and not any(
                        isinstance(x, ast.Name) and x.id == t.elts[0].id for b in s.body + s.orelse for x in ast.walk(b)):
                    # the counter is not used in the loop
                    i.st.frames[fr.fid][t.elts[0].id] = S(opq('counter of a loop'))
                    return self.symbolic_for(ast.copy_location(ast.For(target=t.elts[1], iter=s.iter, body=s.body, orelse=s.orelse), s), o.seq, fr)
                if isinstance(so, Lib) and so.kind == 'range' and so.step.op == 'num':
                    return self.ranged(s, fr, so.lo, so.hi, so.step, lambda k: Tup([S(add(div(sub(k, so.lo), so.step), o.start), 'int'), S(k, 'int')]))
                if isinstance(so, (Ser, Idx)):
                    n = self.pd.axlen(so.axis)
                    v = self.pd.vec(o.seq)
                    return self.ranged(s, fr, ZERO, n, ONE, lambda k: Tup([S(add(k, o.start), 'int'), self.pd.elem(v, S(k))]))
            if isinstance(o, Lib) and o.kind == 'range':
                return self.ranged(s, fr, o.lo, o.hi, o.step, lambda k: S(k, 'int'))
            if isinstance(o, Ser) and gr(o.axis) == 'P':
                return self.ranged(s, fr, ZERO, self.pd.axlen(o.axis), ONE, lambda k: self.pd.elem(o, S(k)))
        except Dead:
            raise
        return self.give_up(s, fr, 'loop over %s' % (o.kind if isinstance(o, Lib) else type(o).__name__))

    def positions(self, o):
        """a sequence entry by entry: first and last position, and the entry at one"""
        o = self.i.deref(o)
        if isinstance(o, Lib) and o.kind == 'range' and o.step is ONE:
            return o.lo, o.hi, lambda k: S(k, 'int')
        if isinstance(o, (Ser, Idx)):
            v = self.pd.vec(o)

            def entry(k):
                r = self.pd.elem(v, S(k))
                return S(r.t, 'ts') if isinstance(o, Idx) else r
            return ZERO, self.pd.axlen(v.axis), entry
        if isinstance(o, Lib) and o.kind == 'enumerate':
            p = self.positions(o.seq)
            return p and (p[0], p[1], lambda k: Tup([S(add(sub(k, p[0]), o.start), 'int'), p[2](k)]))
        if isinstance(o, Lib) and o.kind == 'zip' and o.parts:
            ps = [self.positions(x) for x in o.parts]
            if all(p is not None and p[0] is ZERO and TM.tkey(p[1]) == TM.tkey(ps[0][1]) for p in ps):
                return ZERO, ps[0][1], lambda k: Tup([p[2](k) for p in ps])
        return None

    def alternatives(self, s, it, fr):
        i = self.i
        res = {}

        def run(v):
            items = self.lib.iterate(v)
            if items is not None:
                return i.unrolled(s, items, fr)
            return self.symbolic_for(s, v, fr)
        return i.fork_exec(it.c, lambda: run(it.a), lambda: run(it.b))

    def give_up(self, s, fr, why):
        i = self.i
        i.unsup(why)
        i.havoc(s.body, fr)
        i.havoc([ast.Assign(targets=[s.target], value=ast.Constant(value=0))] if isinstance(s, ast.For) else [], fr)
        self.havoc_heap(s.body, fr)
        o = Out()
        o.st = i.st
        return o

    def havoc_heap(self, body, fr):
        """objects written by subscripts or methods in an unmodelled loop body are unknown afterwards"""
        i = self.i
        for st in body:
            for n in ast.walk(st):
                nm = None
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    b = n.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        nm = b.id
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'pop', 'setdefault', 'remove'):
                    nm = n.func.value.id
                if nm and nm in i.st.frames[fr.fid]:
                    v = i.st.frames[fr.fid][nm]
                    if isinstance(v, Ref):
                        self.havoc_obj(v)

    def havoc_obj(self, ref):
        i = self.i
        o = i.st.heap.get(ref.id)
        w = opq('changed in an unmodelled loop')
        if isinstance(o, Ser) or isinstance(o, Tab):
            i.store(ref, o.with_(t=w))
        elif isinstance(o, Frm):
            i.store(ref, o.with_(cols=tuple((n, w) for n, t in o.cols)))
        elif isinstance(o, Arr):
            i.store(ref, o.with_(cells=[w] * len(o.cells)))
        elif isinstance(o, Lst):
            i.store(ref, Symo(w, 'list', o.origin))
        elif isinstance(o, Dct):
            i.store(ref, o.with_(items=[(k, Opq('loop')) for k, v in o.items], open=o.open or 'loop'))

    # -- loops over days -----------------------------------------------------------------

    def days(self, s, fr, axis, value):
        """each iteration handles its own day: evaluate the body for the day of the current point"""
        i = self.i
        base = i.st.guard
        m = mask(axis)
        pre = i.st.fork()
        bound = assigned_names([s]) | assigned_names(s.body)
        st0 = pre.fork()
        for n in bound:
            v = st0.frames[fr.fid].get(n)
            if v is None:
                continue
            # values carried from the previous iteration
            st0.frames[fr.fid][n] = S(sym('carried:%s' % n)) if isinstance(v, S) else Opq('value of %s carried between iterations' % n)
        i.st = st0
        i.st.guard = base + (m,)
        i.assign(s.target, value(), fr)
        self.daydepth += 1
        try:
            o = i.exec_block(s.body, fr)
        finally:
            self.daydepth -= 1
        outs = list(o.conts)
        if o.st is not None:
            outs.append((o.st.guard, None, i.snap() if o.st is i.st else o.st))
        if o.rets or o.brks:
            i.st = pre
            return self.give_up(s, fr, 'exit from a loop over days')
        if not outs:
            i.st = pre
            raise Dead('every iteration raises')
        if len(outs) > 1:
            n = i.common(outs)
            i.merge_outs(outs, outs[0][0][:n])
        else:
            i.st.become(outs[0][2])
        after = i.st
        # combine: objects of before the loop
        res = pre
        res.guard = base
        for hid, new in after.heap.items():
            old = pre.heap.get(hid)
            if old is None:
                res.heap[hid] = new
                continue
            if new is old:
                continue
            res.heap[hid] = self.dayjoin(m, axis, new, old)
        for n in bound:
            if n in after.frames[fr.fid]:
                res.frames[fr.fid][n] = Opq('value of %s after a loop over days' % n)
        for fid, env in after.frames.items():
            if fid not in res.frames:
                res.frames[fid] = env
        i.st = res
        out = Out()
        out.st = i.st
        if s.orelse:
            o = i.exec_block(s.orelse, fr)
            return o
        return out

    def dayjoin(self, m, axis, new, old):
        if isinstance(new, Ser) and isinstance(old, Ser) and new.axis is old.axis and timelike(new.axis):
            mm = land(*[c for c in conj(m) if not implies(mask(new.axis), c)])
            return new.with_(t=self.uncarried(g(mm, new.t, old.t)))
        if isinstance(new, Frm) and isinstance(old, Frm) and new.axis is old.axis and timelike(new.axis):
            mm = land(*[c for c in conj(m) if not implies(mask(new.axis), c)])
            cols = []
            for n, t in new.cols:
                u = old.get(n)
                cols.append((n, self.uncarried(g(mm, t, u)) if u is not None else opq('column made in a loop')))
            return new.with_(cols=tuple(cols))
        if isinstance(new, Lst) and isinstance(old, Lst) and len(new.items) == len(old.items) + 1 and new.items[:-1] == old.items and not old.items:
            v = new.items[-1]
            if isinstance(v, S):
                return Ser(axis, v.t, 'list')
            vo = self.i.deref(v)
            return Symo(opq('list collected in a loop'), 'list')
        self.i.unsup('object changed in a loop over days')
        if isinstance(new, Ser):
            return new.with_(t=opq('loop over days'))
        if isinstance(new, Arr):
            return new.with_(cells=[opq('loop over days')] * len(new.cells))
        return Symo(opq('loop over days'), 'object')

    def uncarried(self, t):
        return t

    # -- loops over ranges -----------------------------------------------------------------

    def ranged(self, s, fr, lo, hi, step, value):
        i = self.i
        if step is not ONE and not (step.op == 'num' and step.args[0] != 0):
            return self.give_up(s, fr, 'range with a symbolic step')
        var = sym(i.fresh('loop_i'), 'int', 'nonan')
        base = i.st.guard
        pre = i.st.fork()
        nevents = len(i.events)
        bound = sorted(assigned_names(s.body))
        havocs = set()       # heap ids whose cells are turned into previous values
        nset = {}
        for attempt in range(5):
            del i.events[nevents:]
            st0 = pre.fork()
            prevs, cellprev = {}, {}
            for n in bound:
                v = st0.frames[fr.fid].get(n)
                if isinstance(v, S) and n not in nset:
                    p = sym('prev:%s:%s' % (n, var.args[0]), *(['int', 'nonan'] if v.k == 'int' else []))
                    prevs[n] = (v, p)
                    st0.frames[fr.fid][n] = S(p, v.k)
                elif isinstance(v, S):
                    st0.frames[fr.fid][n] = S(sym('prev:%s:%s' % (n, var.args[0])), v.k)
                    prevs[n] = (v, st0.frames[fr.fid][n].t)
            for hid in havocs:
                o = pre.heap[hid]
                if isinstance(o, Arr):
                    cells = []
                    for k, c in enumerate(o.cells):
                        p = sym('prev:%d.%d:%s' % (hid, k, var.args[0]), 'nonan')
                        cellprev[(hid, k)] = (c, p)
                        cells.append(p)
                    st0.heap[hid] = o.with_(cells=cells)
                elif isinstance(o, Obj):
                    flds = []
                    for n, v in o.fields:
                        if isinstance(v, S):
                            p = sym('prev:%d.%s:%s' % (hid, n, var.args[0]))
                            cellprev[(hid, n)] = (v.t, p)
                            flds.append((n, S(p, v.k)))
                        else:
                            flds.append((n, v))
                    st0.heap[hid] = o.with_(fields=tuple(flds))
            i.st = st0
            i.st.guard = base + (cmp('le', lo, var), cmp('lt', var, hi)) if step.args[0] > 0 else base + (cmp('le', var, lo), cmp('gt', var, hi))
            n0 = len(i.st.guard)
            ctx = {'writes': [], 'appends': [], 'pre': pre, 'ids': set(pre.heap), 'base': n0, 'opaque': set()}
            self.active.append(ctx)
            self.vars.append(var)
            try:
                i.assign(s.target, value(var), fr)
                o = i.exec_block(s.body, fr)
            except Dead:
                self.active.pop()
                self.vars.pop()
                i.st = pre
                raise
            self.active.pop()
            self.vars.pop()
            outs = list(o.conts)
            if o.st is not None:
                outs.append((o.st.guard, None, i.snap() if o.st is i.st else o.st))
            if not outs:
                i.st = pre
                return self.give_up(s, fr, 'loop without a normal iteration')
            if len(outs) > 1:
                n = i.common(outs)
                i.merge_outs(outs, outs[0][0][:n])
            else:
                i.st.become(outs[0][2])
            after = i.st
            changed = set()
            for hid, new in after.heap.items():
                old = st0_heap(pre, hid, havocs)
                if old is None or hid in havocs or new is pre.heap.get(hid):
                    continue
                changed.add(hid)
            todo = {h for h in changed if isinstance(pre.heap[h], (Arr, Obj))}
            if not todo - havocs:
                break
            havocs |= todo
        else:
            i.st = pre
            return self.give_up(s, fr, 'loop state did not settle')
        sm = Summary()
        sm.var, sm.lo, sm.hi, sm.step = var, lo, hi, step
        sm.where = i.where(s)
        sm.stack = tuple(f.qual for f in i.stack)
        sm.breaks = [self.iter_cond(x[0], n0) for x in o.brks]
        sm.returns = [self.iter_cond(x[0], n0) for x in o.rets]
        sm.rets = list(o.rets)
        for n, (v, p) in prevs.items():
            w = after.frames[fr.fid].get(n)
            sm.names[n] = (v.t, p, w.t if isinstance(w, S) else opq('not a number'))
        for (hid, k), (c, p) in cellprev.items():
            a = after.heap.get(hid)
            if isinstance(a, Arr):
                sm.cells[(hid, k)] = (c, p, a.cells[k])
            elif isinstance(a, Obj):
                w = a.get(k)
                sm.cells[(hid, k)] = (c, p, w.t if isinstance(w, S) else opq('not a number'))
        sm.writes = ctx['writes']
        sm.appends = []
        lists = {}
        for hid in changed:
            new, old = after.heap[hid], pre.heap[hid]
            if isinstance(old, Lst):
                d = self.appended(old, new)
                if d is None:
                    lists[hid] = None
                else:
                    for v, c in d:
                        sm.appends.append((hid, v, c))
                    lists[hid] = d
        sm.localnames = {n: after.frames[fr.fid].get(n) for n in bound if n not in prevs}
        sm.after = after
        self.summaries.append(sm)
        i.event('loop', sm)
        return self.finish(s, fr, sm, pre, after, prevs, cellprev, changed, lists, base, o)

    def iter_cond(self, guard, n0):
        return land(*[x for x in guard[n0:] if x.op != 'asm'])

    def appended(self, old, new):
        """values appended in one iteration with their conditions"""
        n = len(old.items)
        if isinstance(new, Lst):
            if len(new.items) < n or new.items[:n] != old.items:
                return None
            return [(v, TRUE) for v in new.items[n:]]
        if isinstance(new, AltH):
            a = self.appended(old, new.a)
            b = self.appended(old, new.b)
            if a is None or b is None:
                return None
            return [(v, land(new.c, c)) for v, c in a] + [(v, land(lnot(new.c), c)) for v, c in b]
        return None

    def finish(self, s, fr, sm, pre, after, prevs, cellprev, changed, lists, base, o):
        i = self.i
        var = sm.var
        count = div(sub(sm.hi, sm.lo), sm.step)
        if sm.step.args[0] not in (1, -1):
            count = fn('ceil', count)
        ind = {}
        # induction variables: next = prev + constant
        for n, (init, p, nx) in sm.names.items():
            d = sub(nx, p)
            try:
                k = TM.N(d, None)
            except Exception:
                k = None
            if isinstance(k, TM.Rat) and k.const() is not None:
                ind[p] = add(init, mul(num(k.const()), div(sub(var, sm.lo), sm.step)))
            elif sm.step is ONE and sm.lo is ZERO:
                # counts the iterations i = k modulo m
                h = self.delta(nx, p)
                r = h is not None and h.op == 'g' and {x.op for x in h.args[1:]} == {'num'} and residue(h.args[0] if h.args[2] is ZERO else lnot(h.args[0]), var)
                if r and ZERO in h.args[1:]:
                    by = h.args[1] if h.args[2] is ZERO else h.args[2]
                    ind[p] = add(init, mul(by, fn('floor', div(add(var, num(r[0] - 1 - r[1])), num(r[0])))))
        sm.induction = ind
        self.carried(sm, ind)

        def inl(t):
            return subst(t, ind)
        sm.inl = inl
        res = pre
        res.guard = base
        out = Out()
        exits = list(sm.breaks)
        if any(self.possible(sm, inl(c)) for c in sm.returns):
            i.unsup('return inside a loop')
            exits += sm.returns
        if exits:
            # leaves early: nothing precise is known about the accumulated values
            for n, (v, p) in prevs.items():
                res.frames[fr.fid][n] = S(app('after', var.args[0], n), v.k)
            for n in sm.localnames:
                res.frames[fr.fid][n] = Opq('value of %s after a loop with break' % n)
            for hid in changed | {h for h, k in cellprev} | {w[0] for w in sm.writes}:
                oo = res.heap[hid]
                if isinstance(oo, Lst):
                    part = self.until(sm, lists.get(hid))
                    res.heap[hid] = oo.with_(items=oo.items + (part,)) if part is not None else Symo(app('collected', var.args[0], hid), 'list')
                else:
                    i.st = res
                    self.havoc_obj(Ref(hid))
            self.settarget(s, fr, res, 'loop variable')
            i.st = res
            out.st = i.st
            return out
        for n, (v, p) in prevs.items():
            init, p, nx = sm.names[n]
            if p in ind:
                t = add(init, mul(sub(ind[p], init), ONE))
                t = subst(ind[p], {var: add(sm.lo, mul(sm.step, count))})
            else:
                t = self.accumulated(sm, init, p, inl(nx), n)
            sm.final[n] = t
            res.frames[fr.fid][n] = S(t, v.k)
        for n, v in sm.localnames.items():
            if v is None:
                continue
            if isinstance(v, S) and not self.uses(v.t, var, prevs):
                res.frames[fr.fid][n] = S(v.t, v.k)
            elif isinstance(v, S):
                res.frames[fr.fid][n] = S(opq('value of %s after a loop' % n), v.k)
            else:
                res.frames[fr.fid][n] = Opq('value of %s after a loop' % n)
        byid = {}
        for (hid, k), (c, p, nx) in sm.cells.items():
            byid.setdefault(hid, {})[k] = self.accumulated(sm, c, p, inl(nx), '%d.%s' % (hid, k))
        for hid, cells in byid.items():
            oo = pre.heap[hid]
            if isinstance(oo, Arr):
                res.heap[hid] = oo.with_(cells=[cells[k] for k in range(len(oo.cells))])
            else:
                for k, t in cells.items():
                    oo = oo.set(k, S(t, oo.get(k).k))
                res.heap[hid] = oo
        ws = {}
        for hid, idx, val, cond in sm.writes:
            ws.setdefault(hid, []).append((inl(idx), inl(val), inl(cond)))
        i.st = res
        for hid, lst in ws.items():
            oo = res.heap[hid]
            t = self.vector(oo, sm, lst)
            if t is None:
                i.unsup('vector written in a loop')
                t = opq('vector written in a loop')
            elif i.facts.get('cut'):
                t = self.cut(oo, t, sm)
            res.heap[hid] = oo.with_(t=t)
        for hid, d in lists.items():
            r = self.collected(sm, d, inl) if d else None
            if r is None:
                i.unsup('list filled in a loop')
                res.heap[hid] = Symo(opq('list filled in a loop'), 'list')
            else:
                res.heap[hid] = r
        for hid in changed:
            if hid in lists or hid in byid or hid in ws:
                continue
            new = after.heap[hid]
            i.unsup('object changed in a loop')
            if isinstance(pre.heap[hid], (Ser, Tab, Frm, Dct)):
                self.havoc_obj(Ref(hid))
            else:
                res.heap[hid] = Symo(opq('object changed in a loop'), 'object')
        for hid, new in after.heap.items():
            if hid not in res.heap:
                res.heap[hid] = new
        self.settarget(s, fr, res, 'loop variable')
        if isinstance(s.target, ast.Name):
            last = add(sm.lo, mul(sm.step, sub(count, ONE)))
            res.frames[fr.fid][s.target.id] = S(last, 'int') if sm.step.args[0] in (1, -1) else Opq('loop variable')
        i.st = res
        out.st = i.st
        if s.orelse:
            o2 = i.exec_block(s.orelse, fr)
            return o2
        return out

    def everynth(self, t, var, m, k):
        """a term of iteration i as a term of j where i = m*j + k"""
        t = subst(t, {var: add(mul(num(m), var), num(k))})

        def f(u):
            if u.op == 'fn' and u.args[0] == 'floor':
                r = TM.N(u.args[1], None)
                j = TM.N(sub(u.args[1], var), None)
                if isinstance(j, TM.Rat) and j.const() is not None:
                    c = j.const()
                    return add(var, num(c.numerator // c.denominator))
            if u.op == 'fn' and u.args[0] == 'mod' and u.args[2].op == 'num':
                q = u.args[2].args[0]
                c, off = linear(u.args[1], var)
                if c is not None and c % q == 0:
                    return num(off.args[0] % q)
            return None
        return rewrite(t, f)

    def possible(self, sm, c):
        """whether a condition of an iteration may hold"""
        for x in conj(c):
            r = residue(x, sm.var)
            if r is not None:
                c = self.everynth(c, sm.var, *r)
                break
        def f(u):
            # comparisons of a choice between constants
            if u.op == 'cmp' and u.args[2].op == 'num' and u.args[1].op == 'g' and all(x.op == 'num' for x in leaves(u.args[1])):
                return each(u.args[1], lambda x: cmp(u.args[0], x, u.args[2]))
            if u.op == 'cmp' and u.args[1].op == 'num' and u.args[2].op == 'g' and all(x.op == 'num' for x in leaves(u.args[2])):
                return each(u.args[2], lambda x: cmp(u.args[0], u.args[1], x))
            return None
        c = rewrite(c, f)
        return c is not FALSE and TM.decide(g(c, ONE, ZERO), ZERO, limit=2000).kind != 'eq'

    def carried(self, sm, ind):
        """values taken over from the iteration before: what that one assigned, or the last assignment before it"""
        if sm.step is not ONE:
            return
        ps = {p for init, p, nx in sm.names.values()} | {p for c, p, nx in sm.cells.values()}
        for n, (init, p, nx) in sm.names.items():
            if p in ind:
                continue
            t = subst(nx, ind)
            used = {u for u in subterms(t) if u in ps}
            if not used:
                ind[p] = g(cmp('eq', sm.var, sm.lo), init, subst(t, {sm.var: sub(sm.var, ONE)}))
            elif used == {p} and all(x is p or not any(u is p for u in subterms(x)) for x in leaves(t)) and not self.incond(t, p):
                ind[p] = app('stale', n, sm.var.args[0], sm.var)

    def incond(self, t, p):
        if t.op != 'g':
            return False
        return any(u is p for u in subterms(t.args[0])) or self.incond(t.args[1], p) or self.incond(t.args[2], p)

    def until(self, sm, d):
        """positions appended until the loop is left"""
        if not d or len(d) != 1 or sm.step not in (ONE, num(-1)):
            return None
        v, c = d[0]
        stop = lor(*sm.breaks)
        if not isinstance(v, S) or v.t is not sm.var or not (c is TRUE or implies(lnot(stop), c)):
            return None
        axes = {u.args[2] for u in subterms(stop) if u.op == 'app' and u.args[0] == 'elem' and u.args[3] is sm.var}
        if len(axes) != 1:
            return None
        axis = axes.pop()
        row = self.atrow(S(stop), sm.var).t
        if any(u is sm.var or u.op == 'sym' and str(u.args[0]).startswith('prev:') for u in subterms(row)):
            return None
        n = self.pd.axlen(axis)
        if sm.step is ONE:
            whole = TM.tkey(sm.lo) == TM.tkey(ZERO) and TM.tkey(sm.hi) == TM.tkey(n)
        else:
            whole = TM.tkey(sm.hi) == TM.tkey(num(-1)) and TM.tkey(sm.lo) == TM.tkey(sub(n, ONE))
        bounds = () if whole else (sm.lo, sm.hi)
        return Splice(axis, app('run', axis, 'down' if sm.step is ONE else 'up', row, *bounds))

    def settarget(self, s, fr, res, why):
        for n in assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))]):
            res.frames[fr.fid][n] = Opq(why)

    def uses(self, t, var, prevs):
        ps = {p for v, p in prevs.values()} | {var}
        return any(u in ps or (u.op == 'sym' and str(u.args[0]).startswith('prev:')) for u in subterms(t))

    def accumulated(self, sm, init, p, nx, name):
        """value after the loop of a variable with the given step"""
        if nx is p:
            return init
        h = self.delta(nx, p)
        if h is not None:
            used = [u for u in subterms(h) if u.op == 'sym' and str(u.args[0]).startswith('prev:')]
            if not used:
                if sm.step is not ONE:
                    return app('after', sm.var.args[0], name)
                r = h.op == 'g' and sm.lo is ZERO and ZERO in h.args[1:] and residue(h.args[0] if h.args[2] is ZERO else lnot(h.args[0]), sm.var)
                if r:
                    hh = self.everynth(h.args[1] if h.args[2] is ZERO else h.args[2], sm.var, *r)
                    n = fn('floor', div(add(sm.hi, num(r[0] - 1 - r[1])), num(r[0])))
                    return add(init, app('sum', ZERO, n, lam(sm.var, hh)))
                return add(init, app('sum', sm.lo, sm.hi, lam(sm.var, h)))
        return app('after', sm.var.args[0], name)

    def delta(self, nx, p):
        """h with nx = p + h, or None"""
        if nx is p:
            return ZERO
        if nx.op == 'g':
            a, b = self.delta(nx.args[1], p), self.delta(nx.args[2], p)
            if a is None or b is None or any(u is p for u in subterms(nx.args[0])):
                return None
            return g(nx.args[0], a, b)
        if nx.op == 'add' and p in nx.args:
            r = list(nx.args)
            r.remove(p)
            h = add(*r)
            return None if any(u is p for u in subterms(h)) else h
        if nx.op == 'add':
            # one choice among the summands holds the previous value
            for k, u in enumerate(nx.args):
                if any(v is p for v in subterms(u)):
                    d = self.delta(u, p)
                    if d is None:
                        return None
                    r = [x for j, x in enumerate(nx.args) if j != k]
                    if any(v is p for x in r for v in subterms(x)):
                        return None
                    return add(d, *r)
        return None

    def vector(self, oo, sm, lst):
        """vector written at positions c*i + r (r = 0 .. c-1), or elementwise"""
        var = sm.var
        if sm.step not in (ONE, num(-1)):
            return None
        pos = tim('pos')
        n = self.pd.axlen(oo.axis)
        ent = {}
        stride = None
        pins = []
        # write positions: later writes of one iteration to the same place win
        for idx, val, cond in lst:
            c, off = linear(idx, var)
            if c == 0:
                # a fixed place, written in one iteration only
                k = pinned(cond, var)
                if k is None:
                    return None
                pins.append((off, k, val, cond))
                continue
            if c is None:
                return None
            if stride is None:
                stride = c
            if c != stride or c < 1:
                return None
            ent.setdefault(off, []).append((val, cond))
        for off, k, val, cond in pins:
            if stride is None:
                return None
            ent.setdefault(sub(off, mul(num(stride), k)), []).append((val, cond))
        offs = list(ent)
        if any(o.op != 'num' for o in offs):
            return None
        # a smaller offset reaches a place in a later iteration
        offs = sorted(ent, key=lambda o: o.args[0], reverse=stride == 1)
        lo = sm.lo
        t = None
        # positions reached: stride*i + off for lo <= i < hi
        oldt = oo.t
        res = oldt
        for o in offs:
            iv = div(sub(pos, o), num(stride))
            if stride == 1:
                cur = res
                for v, c in ent[o]:
                    cur = g(subst(c, {var: iv}), subst(v, {var: iv}), cur)
            else:
                cur = oldt
                for v, c in ent[o]:
                    cur = g(c, v, cur)
                cur = subst(cur, {var: iv})
            conds = []
            if stride > 1:
                conds.append(cmp('eq', fn('mod', pos, num(stride)), num(o.args[0] % stride)))
            first = add(mul(num(stride), sm.lo), o) if sm.step is ONE else None
            last = sub(add(mul(num(stride), sm.hi), o), num(stride)) if sm.step is ONE else None
            if first is None:
                return None
            f = TM.N(first, None)
            if not (isinstance(f, TM.Rat) and f.const() is not None and f.const() < stride):
                conds.append(cmp('ge', pos, first))
            l = TM.N(sub(sub(n, ONE), last), None)
            if not (isinstance(l, TM.Rat) and l.const() is not None and l.const() < stride):
                conds.append(cmp('le', pos, last))
            res = g(land(*conds), cur, res) if conds else cur
        full = stride > 1 and [o.args[0] for o in offs] == list(range(stride))
        if full:
            # the residues cover everything: drop the last test
            res2 = None
            for o in reversed(offs):
                iv = div(sub(pos, o), num(stride))
                cur = oldt
                for v, c in ent[o]:
                    cur = g(c, v, cur)
                cur = subst(cur, {var: iv})
                res2 = cur if res2 is None else g(cmp('eq', fn('mod', pos, num(stride)), o), cur, res2)
            tot = TM.N(sub(n, mul(num(stride), sub(sm.hi, sm.lo))), None)
            if isinstance(tot, TM.Rat) and tot.const() == 0 and sm.lo is ZERO:
                return res2
        return res

    def cut(self, oo, t, sm):
        """names the contents of a finished vector, so that what is calculated from it does not repeat its definition"""
        name = 'cut%d' % (len(self.cuts) + 1)
        self.cuts.append(Cut(name, oo.axis, t, sm))
        return app(name, tim('pos'))

    def collected(self, sm, d, inl):
        """list filled in the loop, as a vector over positions"""
        if not d or len(d) != 1 or sm.step is not ONE:
            return None
        v, c = d[0]
        if not isinstance(v, S):
            return None
        c = inl(c)
        t = inl(v.t)
        pos = tim('pos')
        extra = [x for x in conj(c) if any(u is sm.var for u in subterms(x))]
        rng = (cmp('le', sm.lo, sm.var), cmp('lt', sm.var, sm.hi))
        extra = [x for x in extra if x not in rng]
        if any(x.op == 'opq' for x in extra):
            return None
        if not extra:
            return Ser(ax('range', sub(sm.hi, sm.lo)), subst(t, {sm.var: add(pos, sm.lo)}), 'list')
        if len(extra) == 1 and sm.lo is ZERO:
            r = residue(extra[0], sm.var)
            if r is not None:
                m, k = r
                n = fn('floor', div(add(sm.hi, num(m - 1 - k)), num(m)))
                return Ser(ax('range', n), subst(t, {sm.var: add(mul(num(m), pos), num(k))}), 'list')
        n = app('sum', sm.lo, sm.hi, lam(sm.var, g(land(*extra), ONE, ZERO)))
        return Ser(ax('range', n), app('picked', lam(sm.var, land(*extra)), lam(sm.var, t), sm.lo, sm.hi, pos), 'list')

    def record_write(self, ref, o, k, v):
        """write to a vector that existed before the loop being summarised"""
        i = self.i
        if not self.active:
            return False
        ctx = self.active[-1]
        if ref.id not in ctx['ids'] or gr(o.axis) != 'P':
            return False
        if self.lib.intval(k) is not None and len(self.active) == 1 and False:
            return False
        val = self.pd.value_on(v, o.axis) if not isinstance(v, S) else v.t
        cond = land(*[x for x in i.st.guard[ctx['base']:] if x.op != 'asm'])
        ctx['writes'].append((ref.id, k.t, val, cond))
        return True

    # -- while ---------------------------------------------------------------------------

    def symbolic_while(self, s, c, fr):
        i = self.i
        i.unsup('while loop with symbolic condition')
        i.havoc(s.body, fr)
        self.havoc_heap(s.body, fr)
        o = Out()
        o.st = i.st
        return o

    # -- comprehensions ------------------------------------------------------------------

    def comprehension(self, e, fr, kind):
        i = self.i
        i.uid += 1
        fid = 'c%d' % i.uid
        i.st.frames[fid] = {}
        f = Frame(fid, i, fr.mod, fr.fn, parent=fr, iscomp=True)
        first = i.eval(e.generators[0].iter, fr)
        r = self.gen(e, e.generators, 0, first, f, kind)
        if isinstance(r, list):
            if kind == 'dict':
                items = []
                for k, v in r:
                    kk = self.lib.dictkey(k)
                    if kk is None:
                        return i.unsup('dict comprehension key')
                    items = [x for x in items if x[0] != kk] + [(kk, v)]
                return i.alloc(Dct(items))
            if kind == 'set':
                return Lib('set', items=r, cls='set')
            return i.alloc(Lst(r))
        return r

    def element(self, e, f, kind):
        if kind == 'dict':
            return (self.i.eval(e.key, f), self.i.eval(e.value, f))
        return self.i.eval(e.elt, f)

    def gen(self, e, gens, k, it, f, kind):
        i = self.i
        gnode = gens[k]
        if isinstance(it, Alt):
            it = i.prune(it)
        items = self.lib.iterate(it)
        if items is None:
            return self.mapped(e, gens, k, it, f, kind)
        out = []
        for v in items:
            i.assign(gnode.target, v, f)
            ok = TRUE
            for c in gnode.ifs:
                ok = land(ok, i.truth(i.eval(c, f)))
            if ok is not TRUE and ok is not FALSE:
                kn = i.known(ok)
                if kn is not None:
                    ok = boolean(kn)
            if ok is FALSE:
                continue
            if ok is not TRUE:
                return self.conditional(e, gens, k, items, f, kind)
            if k + 1 < len(gens):
                r = self.gen(e, gens, k + 1, i.eval(gens[k + 1].iter, f), f, kind)
                if not isinstance(r, list):
                    return r
                out += r
            else:
                out.append(self.element(e, f, kind))
        return out

    def conditional(self, e, gens, k, items, f, kind):
        """constant sequence with symbolic filters"""
        i = self.i
        if k + 1 < len(gens):
            return i.unsup('nested comprehension with a symbolic filter')
        out = []
        for v in items:
            i.assign(gens[k].target, v, f)
            ok = TRUE
            for c in gens[k].ifs:
                ok = land(ok, i.truth(i.eval(c, f)))
            if ok is FALSE:
                continue
            out.append((ok, self.element(e, f, kind)))
        if kind in ('list', 'gen', 'set'):
            return Lib('condlist', items=out, cls='list')
        return i.unsup('comprehension with a symbolic filter')

    def mapped(self, e, gens, k, it, f, kind):
        i = self.i
        o = i.deref(it)
        if isinstance(o, Opq):
            return o
        if k + 1 < len(gens):
            return i.unsup('nested comprehension')
        if gens[k].ifs:
            if isinstance(o, Lib) and o.kind == 'columns' and o.frame is not None and o.frame.open and isinstance(e.elt, ast.Name):
                return Lib('somecols', frame=o.frame, cls='list')
            ps = self.positions(o)
            if ps is None or kind not in ('list', 'gen'):
                return i.unsup('filtered comprehension')
            var = sym(i.fresh('loop_i'), 'int', 'nonan')
            self.vars.append(var)
            try:
                i.assign(gens[k].target, ps[2](var), f)
                ok = TRUE
                for c in gens[k].ifs:
                    ok = land(ok, i.truth(i.eval(c, f)))
                v = self.element(e, f, kind)
            finally:
                self.vars.pop()
            xs = v.items if isinstance(v, Tup) else [v]
            if not all(isinstance(x, S) for x in xs):
                return i.unsup('filtered comprehension')

            def item(k):
                r = [S(subst(x.t, {var: k}), x.k) for x in xs]
                return Tup(r) if isinstance(v, Tup) else r[0]
            return Lib('filtered', var=var, lo=ps[0], hi=ps[1], cond=ok, item=item, cls='list')
        if kind not in ('list', 'gen'):
            return i.unsup('%s comprehension' % kind)

        if isinstance(o, Lib) and o.kind == 'file':
            fl = i.pd.vfile(it)
            v = fl and S(app('datarow', string(fl.src)), 'str')
            if fl:
                i.assign(gens[k].target, v, f)
                r = self.element(e, f, kind)
                if isinstance(r, S) and r.t.op == 'num':
                    return Lib('filegen', total=mul(r.t, fl.total()), n=fl.total(), cls='list')

        def one(v):
            i.assign(gens[k].target, v, f)
            return i.eval(e.elt, f)
        return self.map_over(it, one)

    def map_over(self, v, f):
        """apply f to each element of a sequence"""
        i = self.i
        items = self.lib.iterate(v)
        if items is not None:
            return i.alloc(Lst([f(x) for x in items]))
        o = i.deref(v)
        if isinstance(o, Idx):
            self.daydepth += 1
            try:
                r = f(S(self.pd.tst(o.axis), 'ts'))
            finally:
                self.daydepth -= 1
            return self.gathered(o.axis, r, 'mapped index')
        if isinstance(o, Ser):
            return self.gathered(o.axis, f(self.item(o)), 'mapped vector')
        if isinstance(o, Lib) and o.kind == 'zip':
            ps = [self.pd.vec(p) for p in o.parts]
            if all(isinstance(p, Ser) for p in ps) and all(sameaxis(p.axis, ps[0].axis) for p in ps):
                return self.gathered(ps[0].axis, f(Tup([self.item(p) for p in ps])), 'mapped zip')
            return i.unsup('mapped zip')
        if isinstance(o, Lib) and o.kind == 'range' and o.step is ONE:
            var = sym(i.fresh('loop_i'), 'int', 'nonan')
            self.vars.append(var)
            try:
                r = f(S(var, 'int'))
            finally:
                self.vars.pop()
            axis = self.rowaxis(r, var, o)
            if axis is not None:
                return self.gathered(axis, self.atrow(r, var), 'mapped range')
            m = {var: add(tim('pos'), o.lo)}
            if isinstance(r, Tup) and all(isinstance(x, S) for x in r.items):
                r = Tup([S(subst(x.t, m), x.k) for x in r.items])
            elif isinstance(r, S):
                r = S(subst(r.t, m), r.k)
            return self.gathered(ax('range', sub(o.hi, o.lo)), r, 'mapped range')
        if isinstance(o, Lib) and o.kind == 'enumerate':
            so = self.pd.vec(o.seq)
            if isinstance(so, Ser) and gr(so.axis) == 'P':
                return self.gathered(so.axis, f(Tup([S(add(tim('pos'), o.start), 'int'), S(so.t)])), 'mapped enumerate')
        if isinstance(o, Lib) and o.kind == 'symvec':
            x = sym(i.fresh('item'), *(('str',) if getattr(o, 'elem', None) == 'str' else ()))
            r = f(S(x, getattr(o, 'elem', None)))
            if isinstance(r, S):
                return Lib('symvec', t=app('map', lam(x, r.t), o.t), cls='list', elem=r.k)
            return i.unsup('mapped sequence')
        return i.unsup('iteration over %s' % (o.kind if isinstance(o, Lib) else type(o).__name__))

    def item(self, p):
        if p.t.op == 'app' and p.t.args[0] == 'celltext':
            return S(p.t, 'str')
        return S(p.t, 'ts' if timelike(p.axis) and p.t is self.pd.tst(p.axis) else None)

    def gathered(self, axis, r, why):
        """list of the values of an expression for all entries of an axis"""
        if isinstance(r, S):
            return self.i.alloc(Ser(axis, r.t, 'list'))
        if isinstance(r, Tup) and r.items and all(isinstance(x, S) for x in r.items):
            return Lib('zip', parts=[self.i.alloc(Ser(axis, x.t, 'list')) for x in r.items], cls='list')
        return self.i.unsup(why)

    def rowaxis(self, r, var, o):
        """the axis all of whose entries are visited by position"""
        xs = r.items if isinstance(r, Tup) else [r]
        if o.lo is not ZERO or not all(isinstance(x, S) for x in xs):
            return None
        axes = {u.args[2] for x in xs for u in TM.subterms(x.t) if u.op == 'app' and u.args[0] == 'elem' and u.args[3] is var}
        if len(axes) != 1:
            return None
        axis = axes.pop()
        if TM.tkey(self.pd.axlen(axis)) != TM.tkey(o.hi):
            return None
        if any(u is var for x in self.items(self.atrow(r, var)) for u in TM.subterms(x.t)):
            return None
        return axis

    def items(self, r):
        return r.items if isinstance(r, Tup) else [r]

    def atrow(self, r, var):
        def one(t):
            return TM.tdrewrite(t, lambda u: u.args[1] if u.op == 'app' and u.args[0] == 'elem' and u.args[3] is var else None)
        out = [S(one(x.t), x.k) for x in self.items(r)]
        return Tup(out) if isinstance(r, Tup) else out[0]

    def cumsum(self, o):
        if gr(o.axis) == 'P':
            v = sym(self.i.fresh('k'), 'int', 'nonan')
            return self.i.alloc(Ser(o.axis, app('psum', add(tim('pos'), ONE), lam(v, csubst(o.t, {tim('pos'): v}))), o.kind))
        return self.i.unsup('cumsum')

    def symlist_get(self, o, k):
        return self.i.unsup('item of a collected list')

    def symlist_method(self, recv, o, name, args, kwargs):
        return self.i.unsup('method of a collected list')

    def symlist_sum(self, o):
        return self.i.unsup('sum of a collected list')

    def symlist_array(self, o):
        return self.i.unsup('array of a collected list')


def st0_heap(pre, hid, havocs):
    return pre.heap.get(hid)


def linear(t, var):
    """(integer coefficient of var, constant) of an index term, (None, None) when not of this form"""
    d = TM.N(sub(subst(t, {var: add(var, ONE)}), t), None)
    z = TM.N(subst(t, {var: ZERO}), None)
    if isinstance(d, TM.Rat) and isinstance(z, TM.Rat) and d.const() is not None and z.const() is not None and d.const().denominator == 1:
        return int(d.const()), num(z.const())
    return None, None


def each(t, f):
    return g(t.args[0], each(t.args[1], f), each(t.args[2], f)) if t.op == 'g' else f(t)


def leaves(t):
    if t.op == 'g':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def pinned(cond, var):
    """the value a condition gives the loop variable"""
    for c in conj(cond):
        if c.op == 'cmp' and c.args[0] == 'eq':
            a, b = c.args[1], c.args[2]
            if a is var and b.op == 'num':
                return b
            if b is var and a.op == 'num':
                return a
    return None


def residue(c, var):
    """(m, k) for a condition  i mod m == k  (or != for m = 2)"""
    neg_ = False
    if c.op == 'not':
        c = c.args[0]
        neg_ = True
    if c.op in ('eq', 'ne') or c.op == 'cmp':
        pass
    t = None
    ops = c.args
    if c.op == 'cmp':
        op, a, b = c.args
    else:
        op = c.op
        if len(ops) != 2:
            return None
        a, b = ops
    if op not in ('eq', 'ne'):
        return None
    if b.op != 'num':
        a, b = b, a
    if b.op != 'num' or not (a.op == 'fn' and a.args[0] == 'mod' and a.args[1] is var and a.args[2].op == 'num'):
        return None
    m = int(a.args[2].args[0])
    k = int(b.args[0])
    if (op == 'ne') != neg_:
        if m == 2:
            return 2, 1 - k
        return None
    return m, k
