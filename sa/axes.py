"""Labels of time series: axes, membership conditions, moving terms along an axis."""
from .values import *
from . import terms as TM

HOUR = tim('hour')
DAY0 = tim('day0')
H = num(3600)
DAYSEC = num(86400)

for _n in ('dayin', 'hourin', 'inspan', 'dayhas', 'inax', 'islast', 'isfirst', 'inshift'):
    TM.APPFLAGS[_n] = ('val',)
for _n in ('len', 'gap', 'count', 'nuniq'):
    TM.APPFLAGS[_n] = ('int', 'nonan', 'nonneg')
TM.APPFLAGS['ts'] = ('nonan',)
TM.APPFLAGS['aggvalue'] = ('nonan',)
TM.APPFLAGS['strftime'] = ('val', 'nonan')
for _n in ('iso', 'str', 'concat', 'repeat'):
    TM.APPFLAGS[_n] = ('val',)


def gr(axis):
    """D daily, H hourly, M finer, K keys, P positions, None unknown"""
    k = axis.args[0]
    if k in ('grid', 'gridfill'):
        return 'M'
    if k in ('filter', 'slice', 'sorted', 'shiftax', 'union', 'dayof', 'rev'):
        return gr(axis.args[1])
    if k == 'alt':
        return gr(axis.args[2])
    return gran(axis)


def subdaily(axis):
    return gr(axis) in ('H', 'M')


def timelike(axis):
    return gr(axis) in ('D', 'H', 'M')


def mask(axis):
    """condition at the current point that the axis has a label there"""
    k, a = axis.args[0], axis.args[1:]
    if k == 'in':
        return app('dayin', a[0], 0) if a[1] == 'D' else app('hourin', a[0], 0)
    if k == 'span':
        return app('inspan', a[0], 0)
    if k == 'days':
        return app('dayhas', a[0], 0)
    if k in ('hourly', 'grid'):
        return mask(a[0])
    if k in ('hourlyfill', 'gridfill'):
        return app('inspan', a[0], 0)
    if k == 'filter':
        return land(mask(a[0]), a[1])
    if k == 'athour':
        return land(mask(a[0]), cmp('eq', HOUR, a[1]))
    if k == 'shiftax':
        return moved(mask(a[0]), -a[1].args[0], 'c')
    if k == 'union':
        return lor(*[mask(x) for x in a])
    if k == 'dayof':
        return mask(a[0])
    if k == 'sorted':
        return mask(a[0])
    if k == 'alt':
        return g(a[0], mask(a[1]), mask(a[2]))
    if k == 'slice' and len(a) == 3:
        c = endcond(a[0], a[1], a[2])
        return land(mask(a[0]), c if c is not None else app('inax', axis))
    return app('inax', axis)


def endcond(axis, lo, hi):
    """which points of an axis the positions lo:hi select, when the bounds count from the matching end"""
    n = 1 if gr(axis) == 'D' else 24 if axis.args[0] in ('hourly', 'hourlyfill') else None
    if n is None:
        return None
    dx = dayaxis(axis)
    out = []
    for e, low in ((lo, True), (hi, False)):
        if e is NONE or (low and e is ZERO):
            continue
        if e.op != 'num' or e.args[0].denominator != 1:
            return None
        v = int(e.args[0])
        if v == 0 or abs(v) > n:
            return None
        name = 'isfirst' if v > 0 else 'islast'
        c = app(name, dx, 0)
        r = v if v > 0 else n + v
        before = FALSE if r == 0 else TRUE if r == n else cmp('lt', HOUR, num(r))
        if v > 0:
            # before position v: on the first day, in its first v hours
            first = land(c, before)
            out.append(lnot(first) if low else first)
        else:
            # from position v on: on the last day, in its last -v hours
            last = land(c, lnot(before))
            out.append(last if low else lnot(last))
    return land(*out)


def conj(c):
    return list(c.args) if c.op == 'and' else [] if c is TRUE else [c]


def closure(cs):
    """conditions together with what follows from them"""
    out = set()
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        if c.op == 'and':
            todo += c.args
        if c.op == 'app':
            n = c.args[0]
            if n == 'dayin':
                todo.append(app('inspan', ax('in', c.args[1], 'D'), c.args[2]))
            elif n == 'hourin':
                todo.append(app('dayhas', ax('in', c.args[1], 'H'), c.args[2]))
            elif n == 'dayhas':
                todo.append(app('inspan', ax('days', c.args[1]), c.args[2]))
            elif n in ('islast', 'isfirst'):
                todo.append(moved(mask(c.args[1]), c.args[2], 'c') if c.args[2] else mask(c.args[1]))
            elif n == 'inspan' and c.args[1].args[0] in ('filter', 'slice'):
                todo.append(app('inspan', c.args[1].args[1], c.args[2]))
    return out


def implies(p, q):
    if p is FALSE or q is TRUE:
        return True
    if p.op == 'or':
        return all(implies(x, q) for x in p.args)
    known = closure(conj(p))
    # a disjunction among the conjuncts of p
    def holds(c):
        if c in known:
            return True
        if c.op == 'and':
            return all(holds(x) for x in c.args)
        if c.op == 'or':
            if any(holds(x) for x in c.args):
                return True
        for d in known:
            if d.op == 'or' and all(implies(x, c) for x in d.args):
                return True
        return False
    return all(holds(c) for c in conj(q))


def strict(t, m):
    """t is missing wherever the membership condition m fails"""
    ms = conj(m)
    for c in ms:
        if c.op == 'app' and _strict(t, c):
            continue
        return False
    return True


def _strict(t, c):
    op = t.op
    if op == 'nan':
        return True
    if op == 'col':
        n = c.args[0]
        return n in ('dayin', 'hourin') and t.args[0] == c.args[1] and t.args[2] == c.args[2] and t.args[3] == 'c'
    if op in ('add', 'mul', 'pow', 'fn'):
        return any(isinstance(x, T) and _strict(x, c) for x in t.args)
    if op == 'g':
        if t.args[0] is c or c in conj(t.args[0]):
            return _strict(t.args[2], c)
        return _strict(t.args[1], c) and _strict(t.args[2], c)
    if op == 'app' and t.args[0] == 'dagg' and t.args[1] != 'sum':
        return c.args[0] == 'dayhas' and t.args[2] is c.args[1] and not c.args[2]
    return False


def gm(m, t, other=NANT):
    """value t where m holds, other elsewhere"""
    if other is NANT and strict(t, m):
        return t
    return g(m, t, other)


DAYWISE = ('dayin', 'hourin', 'inspan', 'dayhas', 'islast', 'isfirst')
WHOLE = ('gagg', 'agg', 'at', 'ts', 'len', 'count', 'gap', 'percentile', 'interp', 'shiftpos', 'lookup', 'elem', 'fit')


def moved(t, n, tag='c'):
    """term n days later: tag c along the calendar, p along the entries of the series"""
    if n == 0:
        return t
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        op = u.op
        if op == 'col':
            if u.args[2] and u.args[3] != tag:
                r = app('moved', n, tag, u)
            else:
                r = col(u.args[0], u.args[1], u.args[2] + n, tag if u.args[2] + n else 'c')
        elif op == 'tim':
            if u.args[0] in ('hour', 'minute', 'second'):
                r = u
            elif u.args[0] == 'day0' and tag == 'c':
                r = add(u, num(86400 * n))
            elif u.args[0] in ('key0', 'key1', 'key2', 'row', 'col', 'pos'):
                r = u
            else:
                r = tim(u.args[0], u.args[1] + n) if tag == 'c' else app('moved', n, tag, u)
        elif op == 'app':
            nm = u.args[0]
            if nm in DAYWISE:
                r = app(nm, u.args[1], u.args[2] + n) if tag == 'c' else app('moved', n, tag, u)
            elif nm == 'dagg':
                r = app('dagg', u.args[1], u.args[2], go(u.args[3]))
            elif nm == 'moved':
                r = app('moved', u.args[1] + n, tag, u.args[3]) if u.args[2] == tag else app('moved', n, tag, u)
            elif nm in WHOLE and not hascur(u):
                r = u
            elif nm == 'gagg':
                r = mk('app', *(u.args[:5] + tuple(go(x) if isinstance(x, T) else x for x in u.args[5:])))
            elif nm == 'lookup':
                r = mk('app', *[go(x) if isinstance(x, T) else x for x in u.args])
            else:
                r = app('moved', n, tag, u)
        elif op in ('lam', 'ax', 'bv', 'num', 'str', 'none', 'nan', 'bool', 'sym', 'opq', 'inf'):
            r = u
        else:
            r = TM.rebuild(op, tuple(go(x) if isinstance(x, T) else x for x in u.args))
        memo[u] = r
        return r
    return go(t)


def hascur(u):
    """an aggregate over a whole axis whose keys depend on the current point"""
    return u.args[0] in ('gagg', 'lookup')


CURRENT = ('col', 'tim')


HOURLY = set()  # names of hourly input data


def dayconst(t):
    """the term does not depend on the time of day"""
    op = t.op
    if op == 'opq':
        return False
    if op == 'tim':
        return t.args[0] not in ('hour', 'minute', 'second')
    if op == 'col':
        return t.args[0] not in HOURLY
    if op == 'app':
        nm = t.args[0]
        if nm in ('dagg', 'agg', 'at', 'ts', 'len', 'count', 'gap', 'percentile', 'dayin', 'inspan', 'dayhas', 'islast', 'isfirst'):
            return True
        if nm in ('hourin', 'rand', 'interp', 'shiftpos', 'elem'):
            return False
        if nm == 'gagg':
            return all(dayconst(x) for x in t.args[5:] if isinstance(x, T))
        return all(dayconst(x) for x in t.args if isinstance(x, T))
    if op in ('lam', 'ax', 'bv'):
        return True
    return all(dayconst(x) for x in t.args if isinstance(x, T))


def canon(a):
    if a.op == 'ax' and a.args[0] == 'hourlyfill':
        return ax('hourly', ax('span', a.args[1]))
    if a.op == 'ax' and a.args[0] == 'gridfill':
        return ax('grid', ax('span', a.args[1]), *a.args[2:])
    if a.op == 'ax' and a.args[0] == 'span' and a.args[1].args[0] == 'span':
        return a.args[1]
    return a


def sameaxis(a, b):
    if a is b:
        return True
    a, b = canon(a), canon(b)
    if a is b:
        return True
    if a.args[0] == 'filter' and b.args[0] == 'filter' and sameaxis(a.args[1], b.args[1]):
        return samecond(a.args[2], b.args[2])
    if a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return all((x is y) or (isinstance(x, T) and isinstance(y, T) and (sameaxis(x, y) if x.op == 'ax' and y.op == 'ax' else TM.tkey(x) == TM.tkey(y)))
                   or x == y for x, y in zip(a.args[1:], b.args[1:]))
    return False


def samecond(a, b):
    if a is b:
        return True
    try:
        return TM.decide(g(a, ONE, ZERO), g(b, ONE, ZERO), limit=3000).kind == 'eq'
    except Exception:
        return False


def dayaxis(axis):
    """the daily axis behind an hourly one"""
    k, a = axis.args[0], axis.args[1:]
    if k in ('hourly', 'grid', 'athour'):
        return a[0]
    if k in ('hourlyfill', 'gridfill'):
        return ax('span', a[0])
    if k == 'filter' and dayconst(a[1]):
        d = dayaxis(a[0])
        return ax('filter', d, a[1])
    if gr(axis) == 'D':
        return axis
    return ax('days', axis)


INNER = ('dagg', 'agg', 'at', 'ts', 'len', 'count', 'gap', 'percentile', 'interp', 'shiftpos', 'posn', 'scan')


def csubst(t, mapping):
    """substitute variables of the current point; aggregates over other points are left alone"""
    def f(u):
        r = mapping.get(u)
        if r is not None:
            return r
        if u.op == 'ax':
            return u
        if u.op == 'app':
            if u.args[0] in INNER:
                return u
            if u.args[0] == 'gagg':
                return mk('app', *(u.args[:5] + tuple(tdrewrite(x, f) if isinstance(x, T) else x for x in u.args[5:])))
            if u.args[0] == 'elem':
                return mk('app', *(u.args[:3] + tuple(tdrewrite(x, f) if isinstance(x, T) else x for x in u.args[3:])))
        return None
    return tdrewrite(t, f)
