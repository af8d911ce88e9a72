"""Terms: the value language of the analyser, their normal form and comparison.

A term is an immutable, hash-consed tree.  Numeric terms are normalised to exact
rational functions over *atoms* (symbols, series values, applications of elementary
functions).  Choice nodes g(cond, a, b) come from control flow joins and masked
stores; two terms are compared by splitting on the atomic conditions that occur in them.
"""
from fractions import Fraction
import math


class T(object):
    __slots__ = ('op', 'args', 'h', 'size', 'opaque', '_id')
    _table = {}
    _count = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def mk(op, *args):
    key = (op,) + args
    try:
        t = T._table.get(key)
    except TypeError:
        raise TypeError('unhashable term argument: %r' % (key,))
    if t is not None and all(type(x) is type(y) for x, y in zip(t.args, args)):
        return t
    if t is not None:
        # same hash/equality but different python types (1 == True); disambiguate
        key = (op, tuple(type(a).__name__ for a in args)) + args
        t = T._table.get(key)
        if t is not None:
            return t
    t = T()
    t.op = op
    t.args = args
    T._count += 1
    t._id = T._count
    t.h = hash(('T', t._id))
    size = 1
    opaque = op == 'opq'
    for a in args:
        if isinstance(a, T):
            size += a.size
            opaque = opaque or a.opaque
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    size += b.size
                    opaque = opaque or b.opaque
    t.size = size
    t.opaque = opaque
    T._table[key] = t
    return t


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NANT
        if x in (float('inf'), float('-inf')):
            return mk('inf', 1 if x > 0 else -1)
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


NANT = mk('nan')
NONE = mk('none')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
PI = mk('sym', 'pi', ('nonan', 'pos'))
ZERO = num(0)
ONE = num(1)


def string(s):
    return mk('str', s)


def sym(name, *flags):
    return mk('sym', name, tuple(sorted(flags)))


def tim(name, off=0):
    return mk('tim', name, off)


def col(src, name, off=0, tag='c'):
    return mk('col', src, name, off, tag if off else 'c')


def opq(why):
    return mk('opq', why)


ENDS = ('islast', 'isfirst', 'ts', 'at')


def endaxis(a):
    """an axis with the same first and last label"""
    while a.op == 'ax' and a.args[0] == 'span':
        a = a.args[1]
    if a.op == 'ax' and a.args[0] == 'hourlyfill':
        return mk('ax', 'hourly', endaxis(a.args[1]))
    if a.op == 'ax' and a.args[0] == 'hourly' and endaxis(a.args[1]) is not a.args[1]:
        return mk('ax', 'hourly', endaxis(a.args[1]))
    return a


def app(name, *args):
    if name in ENDS:
        args = (endaxis(args[0]),) + args[1:]
    return mk('app', name, *args)


def boolean(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.op == 'num'


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        if t.op == 'nan':
            return NANT
        if t.op == 'num':
            c += t.args[0]
        elif t.op == 'bool':
            c += int(t.args[0])
        elif t.op == 'add':
            for u in t.args:
                if u.op == 'num':
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if not out:
        return num(c)
    if c:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return mk('add', *out)


def mul(*ts):
    out = []
    c = Fraction(1)
    for t in ts:
        if t.op == 'nan':
            return NANT
        if t.op == 'num':
            c *= t.args[0]
        elif t.op == 'bool':
            c *= int(t.args[0])
        elif t.op == 'mul':
            for u in t.args:
                if u.op == 'num':
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if not out:
        return num(c)
    if c == 0:
        # 0 * x is x's missing value if x is missing; keep the product
        out.insert(0, num(0))
        return mk('mul', *out)
    if c != 1:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', *out)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    if b.op == 'nan' or e.op == 'nan':
        return NANT
    if b.op == 'bool':
        b = num(int(b.args[0]))
    if e.op == 'bool':
        e = num(int(e.args[0]))
    if e.op == 'num':
        ev = e.args[0]
        if ev == 1:
            return b
        if ev == 0:
            return ONE
        if b.op == 'num':
            bv = b.args[0]
            if ev.denominator == 1 and abs(ev) < 64 and not (bv == 0 and ev < 0):
                return num(bv ** int(ev))
    return mk('pow', b, e)


def div(a, b):
    return mul(a, power(b, num(-1)))


def fn(name, *args):
    if any(a.op == 'nan' for a in args):
        return NANT
    if len(args) == 1 and args[0].op == 'num':
        x = args[0].args[0]
        if name == 'floor':
            return num(math.floor(x))
        if name == 'ceil':
            return num(math.ceil(x))
        if name == 'trunc':
            return num(math.trunc(x))
        if name == 'round':
            return num(round(x))
        if name == 'abs':
            return num(abs(x))
        if name in ('sin', 'tan', 'arcsin', 'arctan', 'sqrt') and x == 0:
            return ZERO
        if name in ('cos', 'exp') and x == 0:
            return ONE
        if name == 'log' and x == 1:
            return ZERO
    if name == 'sqrt':
        return power(args[0], num(Fraction(1, 2)))
    if name == 'deg2rad':
        return mul(args[0], PI, num(Fraction(1, 180)))
    if name == 'rad2deg':
        return mul(args[0], power(PI, num(-1)), num(180))
    if name in ('floordiv', 'mod') and all(a.op == 'num' for a in args) and args[1].args[0] != 0:
        a, b = args[0].args[0], args[1].args[0]
        return num(math.floor(a / b)) if name == 'floordiv' else num(a - b * math.floor(a / b))
    return mk('fn', name, *args)


def g(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return g(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    # collapse nested choices on the identical condition
    if a.op == 'g' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'g' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('g', c, a, b)


def lnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def land(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if lnot(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def lor(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == 'or':
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if lnot(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def cmp(op, a, b):
    """op in lt le gt ge eq ne"""
    if op == 'gt':
        return cmp('lt', b, a)
    if op == 'ge':
        return cmp('le', b, a)
    if op == 'ne':
        return lnot(cmp('eq', a, b))
    if a.op == 'bool' and b.op in ('num',):
        a = num(int(a.args[0]))
    if b.op == 'bool' and a.op in ('num',):
        b = num(int(b.args[0]))
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a.op == 'num' and b.op == 'num':
        x, y = a.args[0], b.args[0]
        return boolean({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    if a.op == 'str' and b.op == 'str':
        x, y = a.args[0], b.args[0]
        return boolean({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    CONST = ('num', 'str', 'none', 'bool')
    if op == 'lt' and a is b:
        return FALSE
    if op == 'eq' and (a.op == 'none' and notnone(b) or b.op == 'none' and notnone(a)):
        return FALSE
    if op == 'eq' and a.op in CONST and b.op in CONST:
        return boolean(a is b)
    if op == 'eq' and a is b and a.op in ('none', 'bool', 'str'):
        return TRUE
    return mk('cmp', op, a, b)


def notnone(t):
    return t.op == 'sym' and 'nonan' in t.args[1] or t.op in ('add', 'mul', 'col', 'tim') or t.op == 'app' and t.args[0] == 'freqof'


def isnull(x):
    if x.op == 'nan' or x.op == 'none':
        return TRUE
    if x.op in ('num', 'str', 'bool', 'tim'):
        return FALSE
    if x.op == 'sym' and 'nonan' in x.args[1]:
        return FALSE
    if x.op == 'g':
        a = isnull(x.args[1])
        b = isnull(x.args[2])
        return lor(land(x.args[0], a), land(lnot(x.args[0]), b))
    if x.op in ('cmp', 'and', 'or', 'not', 'isnull'):
        return FALSE
    if x.op == 'app' and 'nonan' in APPFLAGS.get(x.args[0], ()):
        return FALSE
    return mk('isnull', x)


# ---------------------------------------------------------------------------
# traversal


def rewrite(t, f, memo=None):
    """bottom-up rewriting; f(term) returns a replacement or None"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    args = []
    changed = False
    for a in t.args:
        if isinstance(a, T):
            b = rewrite(a, f, memo)
            changed = changed or b is not a
            args.append(b)
        elif isinstance(a, tuple) and any(isinstance(x, T) for x in a):
            b = tuple(rewrite(x, f, memo) if isinstance(x, T) else x for x in a)
            changed = changed or any(x is not y for x, y in zip(a, b))
            args.append(b)
        else:
            args.append(a)
    u = rebuild(t.op, args) if changed else t
    v = f(u)
    if v is not None:
        u = v
    memo[t] = u
    return u


def tdrewrite(t, f, memo=None):
    """top-down rewriting; a replacement given by f is not descended into"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    v = f(t)
    if v is None:
        args = []
        changed = False
        for a in t.args:
            if isinstance(a, T):
                b = tdrewrite(a, f, memo)
                changed = changed or b is not a
                args.append(b)
            elif isinstance(a, tuple) and any(isinstance(x, T) for x in a):
                b = tuple(tdrewrite(x, f, memo) if isinstance(x, T) else x for x in a)
                changed = changed or any(x is not y for x, y in zip(a, b))
                args.append(b)
            else:
                args.append(a)
        v = rebuild(t.op, args) if changed else t
    memo[t] = v
    return v


def rebuild(op, args):
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return power(*args)
    if op == 'fn':
        return fn(*args)
    if op == 'g':
        return g(*args)
    if op == 'not':
        return lnot(*args)
    if op == 'and':
        return land(*args)
    if op == 'or':
        return lor(*args)
    if op == 'cmp':
        return cmp(*args)
    if op == 'isnull':
        return isnull(*args)
    return mk(op, *args)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        for a in u.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        stack.append(b)
    return seen


def leaves(t, ops=('col', 'sym', 'tim')):
    return {u for u in subterms(t) if u.op in ops}


def opaques(t):
    return sorted({u.args[0] for u in subterms(t) if u.op == 'opq'})


# ---------------------------------------------------------------------------
# printing


def fnum(x):
    if x.denominator == 1:
        return str(x.numerator)
    f = float(x)
    if Fraction(repr(f)) == x:
        return repr(f)
    return '%d/%d' % (x.numerator, x.denominator)


def show(t, depth=0):
    if depth > 14:
        return '...'
    d = depth + 1
    op = t.op
    a = t.args
    if op == 'num':
        return fnum(a[0])
    if op in ('nan', 'none'):
        return op
    if op == 'bool':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'tim':
        return a[0] + ('%+d' % a[1] if a[1] else '')
    if op == 'col':
        return '%s.%s%s' % (a[0], a[1], '[%+d%s]' % (a[2], '' if a[3] == 'c' else a[3]) if a[2] else '')
    if op == 'add':
        return '(' + ' + '.join(show(x, d) for x in a) + ')'
    if op == 'mul':
        return '(' + '*'.join(show(x, d) for x in a) + ')'
    if op == 'pow':
        return '%s**%s' % (show(a[0], d), show(a[1], d))
    if op in ('fn', 'app'):
        return '%s(%s)' % (a[0], ', '.join(showarg(x, d) for x in a[1:]))
    if op == 'g':
        return 'if(%s ? %s : %s)' % tuple(show(x, d) for x in a)
    if op == 'cmp':
        return '(%s %s %s)' % (show(a[1], d), {'lt': '<', 'le': '<=', 'eq': '=='}[a[0]], show(a[2], d))
    if op == 'not':
        return 'not ' + show(a[0], d)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a) + ')'
    if op == 'isnull':
        return 'isnull(%s)' % show(a[0], d)
    if op == 'opq':
        return '<?%s>' % (a[0],)
    return '%s(%s)' % (op, ', '.join(showarg(x, d) for x in a))


def showarg(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ', '.join(showarg(y, d) for y in x) + ')'
    return str(x)


# ---------------------------------------------------------------------------
# atoms, polynomials, rational functions


class Atom(object):
    __slots__ = ('id', 'key', 'kind', 'isint', 'nanable', 'lo', 'hi', 'opaque', 'rats', 'text', 'term', 'deep')


ATOMS = []
ATOMKEY = {}

# bounds of time components: (lo, hi), all integers
TIMRANGE = {
    'hour': (0, 23),
    'minute': (0, 59),
    'second': (0, 59),
    'month': (1, 12),
    'day': (1, 31),
    'doy': (1, 366),
    'weekday': (0, 6),
}


def atom(key, kind, isint=False, nanable=True, lo=None, hi=None, opaque=False, rats=(), text=''):
    i = ATOMKEY.get(key)
    if i is not None:
        return i
    a = Atom()
    a.id = len(ATOMS)
    a.key = key
    a.kind = kind
    a.isint = isint
    a.nanable = nanable
    a.lo = lo
    a.hi = hi
    a.opaque = opaque
    a.rats = rats
    a.text = text
    a.deep = opaque or any(ATOMS[y].deep for r in rats if isinstance(r, Rat) for y in r.atoms())
    ATOMS.append(a)
    ATOMKEY[key] = a.id
    return a.id


P1 = {(): Fraction(1)}


def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, e in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > 20000:
        raise TooBig()
    return r


def pkey(p):
    return tuple(sorted(p.items()))


class TooBig(Exception):
    pass


def monoorder(m):
    return (sum(abs(e) for a, e in m), m)


class Rat(object):
    """n/d, with monomial content cancelled; monomials may not have negative exponents"""

    __slots__ = ('n', 'd', '_key')

    def __init__(self, n, d=None):
        if d is None:
            d = P1
        if not n:
            d = P1
        elif d is not P1:
            n, d = reduce_rat(n, d)
        self.n = n
        self.d = d
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = ('R', pkey(self.n), pkey(self.d))
        return self._key

    def const(self):
        if not self.n:
            return Fraction(0)
        if self.d == P1 and len(self.n) == 1 and () in self.n:
            return self.n[()]
        return None

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for a, e in m:
                    s.add(a)
        return s


def reduce_rat(n, d):
    if not d:
        raise ZeroDivisionError
    # constant denominator
    if len(d) == 1:
        (dm, dc), = d.items()
        if not dm:
            if dc != 1:
                n = {m: c / dc for m, c in n.items()}
            return n, P1
    # monomial gcd
    common = None
    for p in (n, d):
        for m in p:
            mm = dict(m)
            if common is None:
                common = mm
            else:
                common = {a: min(e, mm[a]) for a, e in common.items() if a in mm}
            if not common:
                break
        if not common:
            break
    if common:
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        n = {mmul(m, inv): c for m, c in n.items()}
        d = {mmul(m, inv): c for m, c in d.items()}
    # scale so that the leading denominator coefficient is one
    lead = max(d, key=monoorder)
    lc = d[lead]
    if lc != 1:
        n = {m: c / lc for m, c in n.items()}
        d = {m: c / lc for m, c in d.items()}
    if len(d) == 1 and () in d:
        return n, P1
    # exact polynomial division
    if len(d) > 1:
        q = pdiv(n, d)
        if q is not None:
            return q, P1
        if len(n) > 1:
            q = pdiv(d, n)
            if q is not None:
                return reduce_rat(dict(P1), q)
    return n, d


def pdiv(n, d):
    """exact quotient n/d or None (graded order division)"""
    if len(n) > 400 or len(d) > 60:
        return None
    lead = max(d, key=monoorder)
    lc = d[lead]
    ld = dict(lead)
    q = {}
    r = dict(n)
    steps = 0
    while r:
        steps += 1
        if steps > 300:
            return None
        m = max(r, key=monoorder)
        mm = dict(m)
        for a, e in ld.items():
            v = mm.get(a, 0) - e
            if v < 0:
                return None
            mm[a] = v
        k = tuple(sorted((a, e) for a, e in mm.items() if e))
        c = r[m] / lc
        q[k] = q.get(k, 0) + c
        r = padd(r, pmul({k: c}, d), -1)
    return q


def radd(a, b):
    if a.d is P1 and b.d is P1:
        return Rat(padd(a.n, b.n))
    if a.d == b.d:
        return Rat(padd(a.n, b.n), a.d)
    return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))


def rneg(a):
    r = Rat.__new__(Rat)
    r.n = {m: -c for m, c in a.n.items()}
    r.d = a.d
    r._key = None
    return r


def rmul(a, b):
    n = pmul(a.n, b.n)
    d = P1 if (a.d is P1 and b.d is P1) else pmul(a.d, b.d)
    r = Rat(n, d)
    return combine_exp(r)


def rinv(a):
    if not a.n:
        raise ZeroDivisionError
    return combine_exp(Rat(dict(a.d), dict(a.n)))


RZERO = Rat({})
RONE = Rat(dict(P1))


def rconst(c):
    return Rat(pconst(c))


def ratom(i):
    return Rat({((i, 1),): Fraction(1)})


def combine_exp(r):
    """products of exponentials become one exponential"""
    need = False
    for p in (r.n, r.d):
        for m in p:
            k = 0
            for a, e in m:
                if ATOMS[a].kind == 'exp':
                    k += 1
                    if e != 1:
                        k = 2
            if k > 1 or (k and p is r.d):
                need = True
    if not need:
        return r
    # move exponentials of a monomial denominator to the numerator
    n, d = r.n, r.d
    if len(d) == 1:
        (dm, dc), = d.items()
        rest = tuple((a, e) for a, e in dm if ATOMS[a].kind != 'exp')
        ex = tuple((a, -e) for a, e in dm if ATOMS[a].kind == 'exp')
        if ex:
            out = {}
            for m, c in n.items():
                k = mmul(m, ex)
                out[k] = out.get(k, 0) + c
            n = out
            d = {rest: dc}
    def comb(p):
        out = {}
        for m, c in p.items():
            exs = [(a, e) for a, e in m if ATOMS[a].kind == 'exp']
            if len(exs) > 1 or (exs and exs[0][1] != 1):
                arg = RZERO
                for a, e in exs:
                    arg = radd(arg, rmul(rconst(e), ATOMS[a].rats[0]))
                rest = tuple((a, e) for a, e in m if ATOMS[a].kind != 'exp')
                x = exp_rat(arg)
                if x.d is not P1 and x.d != P1:
                    # exp(log u) style cancellation with denominators: give up combining
                    k = m
                    out[k] = out.get(k, 0) + c
                    continue
                for m2, c2 in x.n.items():
                    k = mmul(rest, m2)
                    v = out.get(k, 0) + c * c2
                    if v:
                        out[k] = v
                    else:
                        out.pop(k, None)
            else:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return out
    return Rat(comb(n), comb(d) if d is not P1 else P1)


def exp_rat(arg):
    c = arg.const()
    if c is not None and c == 0:
        return RONE
    # pull out integer multiples of logarithms
    if arg.d is P1 or arg.d == P1:
        factor = RONE
        rest = dict(arg.n)
        for m, c in list(arg.n.items()):
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log':
                u = ATOMS[m[0][0]].rats[0]
                del rest[m]
                if c.denominator == 1:
                    factor = rmul(factor, rpow(u, int(c)))
                else:
                    factor = rmul(factor, pow_atom(u, rconst(c)))
        if len(rest) != len(arg.n):
            return rmul(factor, exp_rat(Rat(rest))) if rest else factor
    return ratom(fnatom('exp', (arg,)))


def rpow(r, k):
    if k == 0:
        return RONE
    if k < 0:
        return rpow(rinv(r), -k)
    out = RONE
    base = r
    while k:
        if k & 1:
            out = rmul(out, base)
        k >>= 1
        if k:
            base = rmul(base, base)
    return out


def pow_atom(b, e):
    c = e.const()
    if c is not None and c.denominator == 1 and abs(c) <= 12:
        return rpow(b, int(c))
    bc = b.const()
    if c is not None and bc is not None and bc >= 0 and c.denominator == 2:
        # exact square roots
        num_, den_ = bc.numerator, bc.denominator
        sn, sd = math.isqrt(num_), math.isqrt(den_)
        if sn * sn == num_ and sd * sd == den_:
            return rpow(rconst(Fraction(sn, sd)), int(c * 2))
    return ratom(fnatom('pow', (b, e)))


NANSAFE = {'abs', 'floor', 'ceil', 'round', 'trunc', 'sin', 'cos', 'exp', 'arctan', 'min', 'max', 'mod', 'floordiv'}
INTFN = {'floor', 'ceil', 'round', 'trunc', 'floordiv'}


def fnatom(name, rats, opaque=False):
    key = ('fn', name) + tuple(r.key if isinstance(r, Rat) else r for r in rats)
    i = ATOMKEY.get(key)
    if i is not None:
        return i
    nanable = name not in NANSAFE
    op = opaque
    for r in rats:
        if isinstance(r, Rat):
            for a in r.atoms():
                nanable = nanable or ATOMS[a].nanable
                op = op or ATOMS[a].opaque
    lo = hi = None
    if name in ('sin', 'cos'):
        lo, hi = Fraction(-1), Fraction(1)
    if name in ('exp', 'abs'):
        lo = Fraction(0)
    if name == 'pow':
        lo = Fraction(0) if rats[1].const() is not None and rats[1].const().denominator == 2 else None
    if name == 'mod' and isinstance(rats[1], Rat) and rats[1].const() and rats[1].const() > 0:
        lo, hi = Fraction(0), rats[1].const()
    isint = name in INTFN
    if name == 'mod':
        isint = all(rat_int(r) for r in rats)
    text = '%s(%s)' % (name, ', '.join(showrat(r) if isinstance(r, Rat) else str(r) for r in rats))
    return atom(key, name, isint=isint, nanable=nanable, lo=lo, hi=hi, opaque=op, rats=tuple(rats), text=text)


def rat_int(r):
    if r.d is not P1 and r.d != P1:
        return False
    for m, c in r.n.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not ATOMS[a].isint:
                return False
    return True


def showpoly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: monoorder(x[0])):
        s = '*'.join(ATOMS[a].text + ('^%d' % e if e != 1 else '') for a, e in m)
        if not m:
            s = fnum(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = fnum(c) + '*' + s
        out.append(s)
    return ' + '.join(out)


def showrat(r):
    if r is NAN:
        return 'nan'
    if isinstance(r, tuple):
        return str(r)
    s = showpoly(r.n)
    if r.d is not P1 and r.d != P1:
        s = '(%s)/(%s)' % (s, showpoly(r.d))
    return s


class _Nan(object):
    key = ('NAN',)

    def __repr__(self):
        return 'nan'


NAN = _Nan()


# ---------------------------------------------------------------------------
# fact stores


class Unclear(Exception):
    """condition that depends on something that is not modelled"""


class NeedSplit(Exception):
    def __init__(self, options):
        self.options = options


class St(object):
    """facts assumed on the current side of a case distinction"""

    def __init__(self):
        self.iv = {}
        self.ne = {}
        self.nan = set()
        self.nanpoly = []
        self.notnan = set()
        self.bools = {}
        self.subst = {}
        self.facts = []
        self.memo = {}
        self.ranges = {}  # extra atom bounds: atomid -> (lo, hi)
        self.flags = set()

    def copy(self):
        s = St()
        s.iv = dict(self.iv)
        s.ne = {k: set(v) for k, v in self.ne.items()}
        s.nan = set(self.nan)
        s.nanpoly = list(self.nanpoly)
        s.notnan = set(self.notnan)
        s.bools = dict(self.bools)
        s.subst = dict(self.subst)
        s.facts = list(self.facts)
        s.ranges = dict(self.ranges)
        s.flags = set(self.flags)
        return s

    def describe(self):
        return '; '.join(self.facts) if self.facts else 'always'


def atom_rat(i, st):
    if st is not None:
        if i in st.nan:
            return NAN
        r = st.subst.get(i)
        if r is not None:
            return r
    return ratom(i)


def N(t, st=None):
    """normal form of a term: Rat, NAN or ('K', key) for non-numeric values"""
    memo = st.memo if st is not None else STATICMEMO
    r = memo.get(t)
    if r is None:
        r = _N(t, st)
        if st is not None and st.nan and isinstance(r, Rat) and not st.nan.isdisjoint(r.atoms()):
            r = NAN
        memo[t] = r
    return r


STATICMEMO = {}


def isrational(r):
    return isinstance(r, Rat)


def nonnum(t, st):
    return ('K', tkey(t, st))


def tkey(t, st=None):
    """canonical key of a term in argument position (static)"""
    r = N(t, st)
    if isinstance(r, Rat):
        return r.key
    if r is NAN:
        return NAN.key
    return r


def _N(t, st):
    op = t.op
    a = t.args
    if op == 'num':
        return rconst(a[0])
    if op == 'bool':
        return ('K', ('bool', a[0]))
    if op == 'nan':
        return NAN
    if op == 'inf':
        return ratom(atom(('inf', a[0]), 'inf', nanable=False, text='inf' if a[0] > 0 else '-inf'))
    if op in ('str', 'none'):
        return ('K', (op,) + a)
    if op == 'sym':
        fl = a[1]
        if 'str' in fl or 'obj' in fl:
            return ('K', ('sym',) + a)
        lo = hi = None
        if 'pos' in fl or 'nonneg' in fl:
            lo = Fraction(0)
        if 'unit' in fl:
            lo, hi = Fraction(0), Fraction(1)
        i = atom(('sym', a[0]), 'sym', isint='int' in fl, nanable='nonan' not in fl and 'int' not in fl, lo=lo, hi=hi, text=a[0])
        return atom_rat(i, st)
    if op == 'tim':
        lo, hi = TIMRANGE.get(a[0], (None, None))
        i = atom(('tim',) + a, 'tim', isint=True, nanable=False,
                 lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi), text=show(t))
        return atom_rat(i, st)
    if op == 'col':
        i = atom(('col',) + a, 'col', text=show(t))
        return atom_rat(i, st)
    if op == 'opq':
        return unknown(show(t))
    if op == 'add':
        r = RZERO
        for x in a:
            y = NR(x, st)
            if y is NAN:
                r = NAN
            elif r is not NAN:
                r = radd(r, y)
        return keep(t, a, r, st)
    if op == 'mul':
        r = RONE
        for x in a:
            y = NR(x, st)
            if y is NAN:
                r = NAN
            elif r is not NAN:
                r = rmul(r, y)
        return keep(t, a, r, st)
    if op == 'pow':
        b = NR(a[0], st)
        e = NR(a[1], st)
        if b is NAN or e is NAN:
            return NAN
        c = e.const()
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            if c < 0 and not b.n:
                return ratom(atom(('inf', 0), 'inf', nanable=True, text='1/0'))
            return rpow(b, int(c))
        return pow_atom(b, e)
    if op == 'fn':
        rs = [NR(x, st) for x in a[1:]]
        if any(r is NAN for r in rs):
            return NAN
        return fn_rat(a[0], rs, st)
    if op == 'g':
        if st is None:
            return static_g(t)
        try:
            c = B(a[0], st)
        except Unclear:
            x, y = N(a[1], st), N(a[2], st)
            kx, ky = [r.key if isinstance(r, Rat) else NAN.key if r is NAN else r for r in (x, y)]
            return x if kx == ky else unknown(show(t))
        return N(a[1], st) if c else N(a[2], st)
    if op in ('cmp', 'and', 'or', 'not', 'isnull'):
        try:
            v = B(t, st)
        except Unclear:
            return unknown(show(t))
        if isinstance(v, bool):
            return ('K', ('bool', v))
        return ('K', ('b', v))
    if op == 'app':
        return app_rat(t, st)
    if op == 'bv':
        i = atom(('bv',) + a, 'bv', isint=True, nanable=False, text='#%d' % a[0])
        return atom_rat(i, st)
    mark = ('opq',) if t.opaque else ()
    return ('K', (op,) + mark + tuple(akey(x, None if op in ('lam', 'ax') else st) for x in a))


FRESH = [0]


def unknown(text):
    """a value of which nothing is known: never equal to any other"""
    FRESH[0] += 1
    return ratom(atom(('opq', FRESH[0]), 'opq', opaque=True, text=text))


def deep(r):
    return isinstance(r, Rat) and any(ATOMS[x].deep for x in r.atoms()) or isinstance(r, tuple) and has_opaque_key(r)


def keep(t, args, r, st):
    """unknown parts do not cancel"""
    if t.opaque and isinstance(r, Rat) and not deep(r) and any(x.opaque and deep(N(x, st)) for x in args):
        return unknown(show(t))
    return r


def holds(c, s):
    """False if an assumption contradicts the facts"""
    try:
        return B(c, s) is not False
    except Unclear:
        return True


def akey(x, st=None):
    if isinstance(x, T):
        return tkey(x, st)
    if isinstance(x, tuple):
        return tuple(akey(y, st) for y in x)
    return x


def NR(t, st):
    """normal form in numeric position: booleans count as 0/1"""
    r = N(t, st)
    if isinstance(r, Rat) or r is NAN:
        return r
    k = r[1]
    if isinstance(k, tuple) and k and k[0] == 'bool':
        return rconst(int(k[1]))
    i = atom(('val', r), 'val', nanable=False, text=show(t), opaque=t.opaque,
             isint=isinstance(k, tuple) and k[:1] == ('b',))
    return atom_rat(i, st)


def static_g(t):
    """choice node where conditions may not be split: an atom with canonical parts"""
    c, x, y = t.args
    ck = B(c, None)
    if ck is True:
        return N(x, None)
    if ck is False:
        return N(y, None)
    rx, ry = N(x, None), N(y, None)
    kx = rx.key if isinstance(rx, Rat) else (NAN.key if rx is NAN else rx)
    ky = ry.key if isinstance(ry, Rat) else (NAN.key if ry is NAN else ry)
    if kx == ky:
        return rx
    if isinstance(ck, tuple) and ck and ck[0] == 'not':
        ck, kx, ky = ck[1], ky, kx
    key = ('g', ck, kx, ky)
    if isinstance(rx, Rat) or isinstance(ry, Rat) or (rx is NAN or ry is NAN):
        return ratom(atom(key, 'g', text=show(t), opaque=t.opaque))
    return ('K', key)


# functions of day-level or table-level values whose arguments are pointwise terms of
# *another* point in time: normalised without the facts about the current point
def app_rat(t, st):
    name = t.args[0]
    key = ('app', name) + tuple(akey(x, None) for x in t.args[1:])
    flags = APPFLAGS.get(name, ())
    if 'val' in flags:
        return ('K', key + (('opq',) if t.opaque else ()))
    i = atom(key, 'app', text=show(t), opaque=t.opaque, isint='int' in flags,
             nanable='nonan' not in flags,
             lo=Fraction(0) if 'nonneg' in flags else None)
    return atom_rat(i, st)


APPFLAGS = {}


def split_pi(r):
    """coefficient of the pure pi monomial of a polynomial rational, rest"""
    pid = PI_ATOM()
    m = ((pid, 1),)
    c = r.n.get(m, Fraction(0))
    if not c:
        return Fraction(0), r
    n = dict(r.n)
    del n[m]
    return c, Rat(n)


_pi = []


def PI_ATOM():
    if not _pi:
        r = N(PI, None)
        (m, c), = r.n.items()
        _pi.append(m[0][0])
    return _pi[0]


def fn_rat(name, rs, st):
    x = rs[0]
    poly = x.d is P1 or x.d == P1
    if name in ('sin', 'cos', 'tan'):
        sign = 1
        if poly:
            c, rest = split_pi(x)
        else:
            c, rest = Fraction(0), x
        # sign normalisation on the part without the pure multiple of pi
        if rest.n:
            lead = max(rest.n, key=monoorder)
            if rest.n[lead] < 0:
                rest = rneg(rest)
                c = -c
                if name in ('sin', 'tan'):
                    sign = -sign
        q = math.floor(2 * c)
        c = c - Fraction(q, 2)
        if name == 'tan':
            if q % 2:
                # tan(y + pi/2) = -1/tan(y)
                y = trig_base('tan', rest, c)
                return rmul(rconst(-sign), rinv(y)) if y.n else ratom(fnatom('tan', (x,)))
            return rmul(rconst(sign), trig_base('tan', rest, c))
        q %= 4
        # rotate
        if name == 'cos':
            kind, s = [('cos', 1), ('sin', -1), ('cos', -1), ('sin', 1)][q]
        else:
            kind, s = [('sin', 1), ('cos', 1), ('sin', -1), ('cos', -1)][q]
        return rmul(rconst(sign * s), trig_base(kind, rest, c))
    if name == 'exp':
        return exp_rat(x)
    if name == 'log':
        return log_rat(x)
    if name == 'expm1':
        return radd(exp_rat(x), rconst(-1))
    if name == 'log1p':
        return log_rat(radd(x, RONE))
    if name == 'abs':
        c = x.const()
        if c is not None:
            return rconst(abs(c))
        if x.n and x.n[max(x.n, key=monoorder)] < 0:
            x = rneg(x)
        if st is not None:
            lo, hi = rbounds(x, st)
            if lo is not None and lo >= 0:
                return x
            if hi is not None and hi <= 0:
                return rneg(x)
        return ratom(fnatom('abs', (x,)))
    if name in INTFN and len(rs) == 1:
        c = x.const()
        if c is not None:
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round}[name]
            return rconst(f(c))
        if rat_int(x):
            return x
        if poly and name in ('floor', 'ceil', 'round'):
            # integer summands can be pulled out (for round: even ones only)
            n = dict(x.n)
            out = {}
            for m, c in list(n.items()):
                if not m:
                    k = math.floor(c)
                    if name == 'round':
                        k = k - (k % 2)
                    if k:
                        out[m] = Fraction(k)
                        if c - k:
                            n[m] = c - k
                        else:
                            del n[m]
                elif c.denominator == 1 and all(ATOMS[a_].isint for a_, e_ in m) and name != 'round':
                    out[m] = c
                    del n[m]
            if out:
                inner = Rat(n)
                return radd(Rat(out), fn_rat(name, [inner], st))
        return ratom(fnatom(name, (x,)))
    if name == 'arccos':
        c = x.const()
        if c is not None and c == 0:
            return rmul(rconst(Fraction(1, 2)), N(PI, None))
        if c == 1:
            return RZERO
        if c == -1:
            return N(PI, None)
    if name in ('min', 'max'):
        rs = sorted(rs, key=lambda r: repr(r.key))
        if len(rs) == 2 and rs[0].key == rs[1].key:
            return rs[0]
    if name in ('mod', 'floordiv') and len(rs) == 2:
        k = rs[1].const()
        c = x.const()
        if k and c is not None:
            return rconst(math.floor(c / k)) if name == 'floordiv' else rconst(c - k * math.floor(c / k))
        if k and name == 'floordiv' and k.denominator == 1 and poly:
            if k == 1 and rat_int(x):
                return x
        if k and k.denominator == 1 and poly and k > 0:
            # drop / pull out multiples of the modulus
            n = {}
            out = {}
            for m, c in x.n.items():
                if all(ATOMS[a_].isint for a_, e_ in m) and c.denominator == 1:
                    qq = math.floor(c / k)
                    rr = c - qq * k
                    if rr:
                        n[m] = rr
                    if qq:
                        out[m] = Fraction(qq)
                else:
                    n[m] = c
            inner = Rat(n)
            if not n:
                return RZERO if name == 'mod' else Rat(out)
            if inner.const() is not None:
                v = inner.const()
                base = rconst(v - k * math.floor(v / k)) if name == 'mod' else rconst(math.floor(v / k))
            elif st is not None and in_range(inner, 0, k, st):
                base = inner if name == 'mod' else RZERO
            else:
                base = ratom(fnatom(name, (inner, rs[1])))
            return base if name == 'mod' else radd(base, Rat(out))
    return ratom(fnatom(name, tuple(rs)))


def in_range(r, lo, hi, st):
    l, h = rbounds(r, st)
    return l is not None and h is not None and l >= lo and h < hi


def trig_base(kind, rest, c):
    """kind(rest + c*pi) with 0 <= c < 1/2"""
    if not rest.n:
        # constants at known angles
        table = {Fraction(0): (1, 0), Fraction(1, 6): (None, Fraction(1, 2)), Fraction(1, 3): (Fraction(1, 2), None)}
        if c in table:
            cv, sv = table[c]
            if kind == 'cos' and cv is not None:
                return rconst(cv)
            if kind == 'sin' and sv is not None:
                return rconst(sv)
            if kind == 'tan' and c == 0:
                return RZERO
        if kind == 'sin' and c == Fraction(1, 4):
            kind = 'cos'
        if kind == 'tan' and c == Fraction(1, 4):
            return RONE
    arg = rest
    if c:
        arg = radd(rest, rmul(rconst(c), N(PI, None)))
    return ratom(fnatom(kind, (arg,)))


def log_rat(x):
    c = x.const()
    if c is not None and c == 1:
        return RZERO
    if len(x.n) == 1 and len(x.d) == 1:
        out = RZERO
        for p, s in ((x.n, 1), (x.d, -1)):
            (m, c), = p.items()
            if c <= 0:
                return ratom(fnatom('log', (x,)))
            if c != 1:
                out = radd(out, rmul(rconst(s), log_const(c)))
            for a, e in m:
                if ATOMS[a].kind == 'exp':
                    out = radd(out, rmul(rconst(s * e), ATOMS[a].rats[0]))
                else:
                    out = radd(out, rmul(rconst(s * e), ratom(fnatom('log', (ratom(a),)))))
        return out
    return ratom(fnatom('log', (x,)))


def log_const(c):
    out = RZERO
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        k = v
        f = 2
        while f * f <= k and f < 5000:
            e = 0
            while k % f == 0:
                k //= f
                e += 1
            if e:
                out = radd(out, rmul(rconst(s * e), ratom(fnatom('log', (rconst(f),)))))
            f += 1
        if k > 1:
            out = radd(out, rmul(rconst(s), ratom(fnatom('log', (rconst(k),)))))
    return out


# ---------------------------------------------------------------------------
# intervals


def atom_bounds(i, st):
    a = ATOMS[i]
    lo, hi = a.lo, a.hi
    if st is not None:
        e = st.ranges.get(i)
        if e:
            lo = e[0] if lo is None or (e[0] is not None and e[0] > lo) else lo
            hi = e[1] if hi is None or (e[1] is not None and e[1] < hi) else hi
        v = st.iv.get((((i, 1),), ))
        v = st.iv.get(pkey({((i, 1),): Fraction(1)}))
        if v:
            l, ls, h, hs = v
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
    if a.id == PI_ATOM():
        return Fraction('3.14159'), Fraction('3.1416')
    if a.kind == 'exp' and a.rats:
        l, h = rbounds(a.rats[0], st)
        if h is not None and h <= 0:
            hi = Fraction(1)
        if l is not None and l >= 0:
            lo = Fraction(1)
    return lo, hi


def imul(a, b):
    (l1, h1), (l2, h2) = a, b
    vals = []
    inf = []

    def m(x, y):
        # x,y numbers or None with sign information given separately
        return x * y
    # treat unbounded ends via sign reasoning
    pos1 = l1 is not None and l1 >= 0
    pos2 = l2 is not None and l2 >= 0
    neg1 = h1 is not None and h1 <= 0
    neg2 = h2 is not None and h2 <= 0
    if None not in (l1, h1, l2, h2):
        v = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
        return min(v), max(v)
    if pos1 and pos2:
        lo = l1 * l2
        hi = h1 * h2 if h1 is not None and h2 is not None else None
        return lo, hi
    if neg1 and neg2:
        lo = h1 * h2
        hi = l1 * l2 if l1 is not None and l2 is not None else None
        return lo, hi
    if pos1 and neg2:
        hi = l1 * h2
        lo = h1 * l2 if h1 is not None and l2 is not None else None
        return lo, hi
    if neg1 and pos2:
        hi = h1 * l2
        lo = l1 * h2 if l1 is not None and h2 is not None else None
        return lo, hi
    if (l1, h1) == (0, 0) or (l2, h2) == (0, 0):
        return Fraction(0), Fraction(0)
    return None, None


def mono_bounds(m, st):
    r = (Fraction(1), Fraction(1))
    for a, e in m:
        lo, hi = atom_bounds(a, st)
        if e % 2 == 0:
            # even power
            cands = []
            if lo is not None and hi is not None:
                mx = max(abs(lo), abs(hi)) ** e
                mn = Fraction(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** e
                b = (mn, mx)
            elif lo is not None and lo >= 0:
                b = (lo ** e, None)
            elif hi is not None and hi <= 0:
                b = (hi ** e, None)
            else:
                b = (Fraction(0), None)
        else:
            b = (lo ** e if lo is not None else None, hi ** e if hi is not None else None)
        r = imul(r, b)
    return r


def pbounds(p, st):
    """interval of a polynomial"""
    if not p:
        return Fraction(0), Fraction(0)
    lo = hi = Fraction(0)
    for m, c in p.items():
        l, h = mono_bounds(m, st)
        l, h = imul((l, h), (c, c)) if (l is not None or h is not None) else (None, None)
        lo = lo + l if lo is not None and l is not None else None
        hi = hi + h if hi is not None and h is not None else None
    if st is not None and st.iv:
        q, c, s = canon_poly(p)
        v = st.iv.get(pkey(q)) if q else None
        if v:
            l, ls, h, hs = v
            # p = s*(q + c)
            if s > 0:
                l2 = None if l is None else s * (l + c)
                h2 = None if h is None else s * (h + c)
            else:
                l2 = None if h is None else s * (h + c)
                h2 = None if l is None else s * (l + c)
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
    return lo, hi


def rbounds(r, st):
    if r is NAN or not isinstance(r, Rat):
        return None, None
    n = pbounds(r.n, st)
    if r.d is P1 or r.d == P1:
        return n
    dl, dh = pbounds(r.d, st)
    if dl is not None and dl > 0:
        inv = (Fraction(1) / dh if dh is not None else Fraction(0), Fraction(1) / dl)
    elif dl is not None and dl >= 0:
        inv = (Fraction(0), None)
    elif dh is not None and dh < 0:
        inv = (Fraction(1) / dh, Fraction(1) / dl if dl is not None else Fraction(0))
    elif dh is not None and dh <= 0:
        inv = (None, Fraction(0))
    else:
        return None, None
    return imul(n, inv)


def canon_poly(p):
    """p = s*(q + c), q without constant term and with leading coefficient one"""
    c = p.get((), Fraction(0))
    q = {m: v for m, v in p.items() if m}
    if not q:
        return {}, Fraction(0), c
    lead = max(q, key=monoorder)
    s = q[lead]
    if s != 1:
        q = {m: v / s for m, v in q.items()}
    return q, c / s, s


def nanable_atoms(p, st):
    """atoms whose absence makes the polynomial missing: the inputs, then functions undefined for some arguments"""
    out = {}

    def visit(a):
        if a in out or not ATOMS[a].nanable or (st is not None and a in st.notnan):
            return
        rats = [r for r in ATOMS[a].rats if isinstance(r, Rat)]
        if not rats:
            out[a] = 0
            return
        out[a] = None if ATOMS[a].kind in NANSAFE else 1
        for r in rats:
            for y in r.atoms():
                visit(y)
    for m in p:
        for a, e in m:
            visit(a)
    return sorted((a for a in out if out[a] is not None), key=lambda a: (out[a], a))


# ---------------------------------------------------------------------------
# booleans


def B(t, st):
    """truth of a condition: True/False; NeedSplit if open; with st None a canonical key"""
    op = t.op
    if op == 'bool':
        return t.args[0]
    if op == 'not':
        v = B(t.args[0], st)
        if isinstance(v, bool):
            return not v
        if v[0] == 'not':
            return v[1]
        return ('not', v)
    if op in ('and', 'or'):
        stop = op == 'or'
        pend = None
        keys = []
        for x in t.args:
            try:
                v = B(x, st)
            except (NeedSplit, Unclear) as e:
                if pend is None or isinstance(pend, Unclear):
                    pend = e
                continue
            if isinstance(v, bool):
                if v is stop:
                    return stop
            else:
                keys.append(v)
        if pend is not None:
            raise pend
        if not keys:
            return not stop
        keys = sorted(set(keys), key=repr)
        for k in keys:
            if ('not', k) in keys:
                return stop
        return keys[0] if len(keys) == 1 else (op,) + tuple(keys)
    if op == 'g':
        c = B(t.args[0], st)
        if c is True:
            return B(t.args[1], st)
        if c is False:
            return B(t.args[2], st)
        a, b = B(t.args[1], st), B(t.args[2], st)
        return a if a == b else ('g', c, a, b)
    if op == 'cmp':
        return Bcmp(t, st)
    if op == 'isnull':
        r = N(t.args[0], st)
        if r is NAN:
            return True
        if st is not None and t.opaque and deep(r):
            raise Unclear()
        if isinstance(r, tuple):
            if r[1][0] in ('str', 'bool', 'b'):
                return False
            return bool_atom(('isnull', r), st, show(t))
        if st is None:
            if not nanable_atoms(r.n, None) and not nanable_atoms(r.d, None):
                return False
            return ('isnull', r.key)
        na = nanable_atoms(r.n, st) + nanable_atoms(r.d, st)
        if not na:
            return False
        a = na[0]

        def yes(s, a=a):
            s.nan.add(a)
            s.facts.append('%s missing' % ATOMS[a].text)

        def no(s, a=a):
            s.notnan.add(a)
        raise NeedSplit([no, yes])
    if op == 'none':
        return False
    if op == 'num':
        return t.args[0] != 0
    if op == 'nan':
        return True
    if op == 'str':
        return bool(t.args[0])
    # any other term used as a condition
    r = N(t, st)
    if st is not None and t.opaque and deep(r):
        raise Unclear()
    if isinstance(r, tuple):
        k = r[1]
        if isinstance(k, tuple) and k and k[0] == 'bool':
            return k[1]
        return bool_atom(r, st, show(t))
    if r is NAN:
        return True
    c = r.const()
    if c is not None:
        return c != 0
    if len(r.n) == 1 and r.d == P1:
        (m, c), = r.n.items()
        if len(m) == 1 and m[0][1] == 1:
            return bool_atom(('truth', m[0][0]), st, show(t))
    if st is None:
        return ('truth', r.key)
    return bool_atom(('truth', r.key), st, show(t))


def bool_atom(key, st, text):
    if st is None:
        return key
    v = st.bools.get(key)
    if v is not None:
        return v

    def yes(s):
        s.bools[key] = True
        s.facts.append(text)

    def no(s):
        s.bools[key] = False
        s.facts.append('not ' + text)
    raise NeedSplit([no, yes])


def Bcmp(t, st):
    op, a, b = t.args
    ra, rb = N(a, st), N(b, st)
    if ra is NAN or rb is NAN:
        return False
    if st is not None and t.opaque and (deep(ra) or deep(rb)):
        raise Unclear()
    # non-numeric operands
    if isinstance(ra, tuple) or isinstance(rb, tuple):
        ka = ra if isinstance(ra, tuple) else None
        kb = rb if isinstance(rb, tuple) else None
        if ka is not None and kb is not None:
            if op == 'eq':
                if ka == kb:
                    return True
                if ka[1][0] in ('str', 'none', 'bool') and kb[1][0] in ('str', 'none', 'bool'):
                    return False
                if ka[1][:1] == ('b',) and kb[1][0] == 'bool':
                    x = ka[1][1]
                    return x if kb[1][1] else ('not', x)
                if kb[1][:1] == ('b',) and ka[1][0] == 'bool':
                    x = kb[1][1]
                    return x if ka[1][1] else ('not', x)
                if st is None:
                    return ('eq',) + tuple(sorted((ka, kb), key=repr))
                return bool_atom(('eq',) + tuple(sorted((ka, kb), key=repr)), st, show(t))
            return bool_atom((op, ka, kb), st, show(t))
        k, r = (ka, rb) if ka is not None else (kb, ra)
        if op == 'eq' and k[1][0] in ('str', 'none'):
            c = r.const()
            if c is not None:
                return False
            if k[1][0] == 'none' and not any(ATOMS[x].opaque or ATOMS[x].kind in ('app', 'val') for x in r.atoms()):
                return False
            return bool_atom((op, k, r.key), st, show(t))
        ra, rb = NR(a, st), NR(b, st)
    d = radd(ra, rneg(rb))
    c = d.const()
    if c is not None:
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]
    if d.d is P1 or d.d == P1:
        q, c, s = canon_poly(d.n)
    else:
        # sign of a quotient with unknown denominator: one atom of its own
        # (without its constant part, so that bounds on it can be compared)
        top = max(d.d, key=monoorder)
        c0 = d.n.get(top, Fraction(0)) / d.d[top]
        part = Rat(padd(d.n, {m: v * c0 for m, v in d.d.items()}, -1), d.d)
        lead = max(part.n, key=monoorder)
        s = part.n[lead]
        dd = rmul(rconst(1 / s), part)
        i = atom(('ratio', dd.key), 'ratio', text='(' + showrat(dd) + ')',
                 opaque=any(ATOMS[x].opaque for x in dd.atoms()),
                 nanable=True, rats=(dd,))
        q, c = {((i, 1),): Fraction(1)}, c0 / s
    # condition: s*(q + c) op 0
    bound = -c
    qk = pkey(q)
    # relation of q to bound
    if op == 'eq':
        rel = 'eq'
    elif s > 0:
        rel = op
    else:
        rel = {'lt': 'gt', 'le': 'ge'}[op]
    isint = all(cf.denominator == 1 and all(ATOMS[x].isint for x, e in m) for m, cf in q.items())
    if isint:
        if rel == 'eq':
            if bound.denominator != 1:
                return False
        elif rel in ('lt', 'le'):
            # q <= floor
            k = math.floor(bound)
            if rel == 'lt' and k == bound:
                k -= 1
            rel, bound = 'le', Fraction(k)
        else:
            k = math.ceil(bound)
            if rel == 'gt' and k == bound:
                k += 1
            # q >= k  ==  not q <= k-1
            rel, bound = 'ge', Fraction(k)
    if st is None:
        if rel == 'eq':
            return ('eq', qk, bound)
        na = nanable_atoms(q, None)
        if na:
            return (rel, qk, bound)
        if rel in ('lt', 'le'):
            return (rel, qk, bound)
        return ('not', ({'gt': 'le', 'ge': 'lt'}[rel] if not isint else 'le', qk, bound if not isint else bound - 1))
    # NaN facts
    for a_ in {x for m in q for x, e in m}:
        if a_ in st.nan:
            return False
    for np_ in st.nanpoly:
        if np_ == qk:
            return False
    na = nanable_atoms(q, st)
    lo, hi = pbounds(q, st)
    v = st.iv.get(qk)
    ls = hs = False
    if v:
        if v[0] is not None and v[0] == lo:
            ls = v[1]
        if v[2] is not None and v[2] == hi:
            hs = v[3]
    ne = st.ne.get(qk, ())
    if lo is not None and lo in ne:
        ls = True
    if hi is not None and hi in ne:
        hs = True

    def truth():
        if rel == 'lt':
            if hi is not None and (hi < bound or (hi == bound and hs)):
                return True
            if lo is not None and lo >= bound:
                return False
        elif rel == 'le':
            if hi is not None and hi <= bound:
                return True
            if lo is not None and (lo > bound or (lo == bound and ls)):
                return False
        elif rel == 'gt':
            if lo is not None and (lo > bound or (lo == bound and ls)):
                return True
            if hi is not None and hi <= bound:
                return False
        elif rel == 'ge':
            if lo is not None and lo >= bound:
                return True
            if hi is not None and (hi < bound or (hi == bound and hs)):
                return False
        else:
            if bound in ne:
                return False
            if lo is not None and (lo > bound or (lo == bound and ls)):
                return False
            if hi is not None and (hi < bound or (hi == bound and hs)):
                return False
            if lo is not None and lo == hi == bound:
                return True
        return None
    tv = truth()
    if tv is not None and not na:
        return tv
    if tv is False and na:
        # false both for ordinary and missing values
        return False
    opts = []
    txt = showpoly(q)
    bt = fnum(bound)

    def setiv(s, l=None, ls_=False, h=None, hs_=False):
        o = s.iv.get(qk, (None, False, None, False))
        nl, nls, nh, nhs = o
        if l is not None and (nl is None or l > nl or (l == nl and ls_)):
            nl, nls = l, ls_
        if h is not None and (nh is None or h < nh or (h == nh and hs_)):
            nh, nhs = h, hs_
        if isint and nl is not None:
            if nls and nl.denominator == 1:
                nl, nls = nl + 1, False
            else:
                nl = Fraction(math.ceil(nl))
        if isint and nh is not None:
            if nhs and nh.denominator == 1:
                nh, nhs = nh - 1, False
            else:
                nh = Fraction(math.floor(nh))
        s.iv[qk] = (nl, nls, nh, nhs)
        for a_ in na:
            s.notnan.add(a_)
        if nl is not None and nl == nh:
            equate(s, q, nl)

    def below(s, strict):
        setiv(s, h=bound, hs_=strict)
        s.facts.append('%s %s %s' % (txt, '<' if strict else '<=', bt))

    def above(s, strict):
        setiv(s, l=bound, ls_=strict)
        s.facts.append('%s %s %s' % (txt, '>' if strict else '>=', bt))

    def equal(s):
        setiv(s, l=bound, h=bound)
        s.facts.append('%s == %s' % (txt, bt))
    if tv is None:
        if rel == 'lt':
            opts = [lambda s: above(s, False), lambda s: below(s, True)]
        elif rel == 'ge':
            opts = [lambda s: below(s, True), lambda s: above(s, False)]
        elif rel == 'le':
            opts = [lambda s: above(s, True), lambda s: below(s, False)]
        elif rel == 'gt':
            opts = [lambda s: below(s, False), lambda s: above(s, True)]
        else:
            opts = []
            if lo is None or lo < bound:
                opts.append(lambda s: below(s, True))
            if hi is None or hi > bound:
                opts.append(lambda s: above(s, True))
            opts.append(equal)
    else:
        def fine(s):
            for a_ in na:
                s.notnan.add(a_)
        opts = [fine]
    if na:
        for a_ in na:
            def miss(s, a_=a_):
                s.nan.add(a_)
                s.facts.append('%s missing' % ATOMS[a_].text)
            opts.append(miss)
    raise NeedSplit(opts)


def equate(s, q, value):
    """record q == value; substitute when linear in an atom that occurs only once"""
    for m in sorted(q, key=monoorder, reverse=True):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if any(a == x for m2 in q if m2 is not m for x, e in m2):
                continue
            if ATOMS[a].rats or a == PI_ATOM():
                continue
            if any(mentions(x, a) for m2 in q if m2 is not m for x, e in m2):
                continue
            c = q[m]
            rest = {k: -v / c for k, v in q.items() if k != m}
            rest = padd(rest, pconst(value / c))
            s.subst[a] = Rat(rest)
            s.memo = {}
            return


def mentions(x, a, seen=None):
    if x == a:
        return True
    for r in ATOMS[x].rats:
        if isinstance(r, Rat):
            for y in r.atoms():
                if mentions(y, a):
                    return True
    return False


# ---------------------------------------------------------------------------
# case distinction and comparison


class Budget(Exception):
    pass


def cases(f, st=None, budget=None):
    """evaluate f(store) under every consistent combination of the facts it asks for"""
    st = st or St()
    budget = budget or [60000]
    stack = [st]
    while stack:
        s = stack.pop()
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        try:
            r = f(s)
        except NeedSplit as e:
            for o in reversed(e.options):
                c = s.copy()
                o(c)
                stack.append(c)
            continue
        yield s, r


def same(ra, rb, st):
    """equality of two normal forms under st: True / False / None (cannot tell)"""
    if ra is NAN or rb is NAN:
        if ra is rb:
            return True
        other = rb if ra is NAN else ra
        if isinstance(other, Rat):
            at = closure(other)
            if any(ATOMS[x].opaque for x in at):
                return None
            # values that may be missing for reasons outside the facts
            if any(ATOMS[x].kind in ('inf',) for x in at):
                return None
        elif has_opaque_key(other):
            return None
        return False
    if isinstance(ra, tuple) or isinstance(rb, tuple):
        if isinstance(ra, Rat):
            ra, rb = rb, ra
        # 0/1 against truth value
        if isinstance(rb, Rat):
            k = ra[1]
            if isinstance(k, tuple) and k[0] == 'bool' and rb.const() is not None:
                return rb.const() == int(k[1])
            if any(ATOMS[x].opaque for x in closure(rb)) or has_opaque_key(ra):
                return None
            return False
        if ra == rb:
            return True
        if has_opaque_key(ra) or has_opaque_key(rb):
            return None
        return False
    d = padd(pmul(ra.n, rb.d), pmul(rb.n, ra.d), -1)
    if not d:
        return True
    d = pythag(d)
    if not d:
        return True
    at = set()
    for m in d:
        for a, e in m:
            at.add(a)
    cl = set()
    for a in at:
        closure_atom(a, cl)
    if any(ATOMS[x].opaque for x in cl):
        return None
    if any(ATOMS[x].kind == 'inf' for x in cl):
        return None
    # a polynomial known to be zero or known to be missing
    q, c, s = canon_poly(d)
    v = st.iv.get(pkey(q))
    if v and v[0] is not None and v[0] == v[2] == -c:
        return True
    return False


def closure_atom(a, out):
    if a in out:
        return
    out.add(a)
    for r in ATOMS[a].rats:
        if isinstance(r, Rat):
            for y in r.atoms():
                closure_atom(y, out)


def closure(r):
    out = set()
    for a in r.atoms():
        closure_atom(a, out)
    return out


def has_opaque_key(k):
    return 'opq' in repr(k)


def pythag(p):
    """reduce sin^2 to 1 - cos^2"""
    for _ in range(8):
        hit = None
        for m in p:
            for a, e in m:
                if e >= 2 and ATOMS[a].kind == 'sin':
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, a, e = hit
        c = p[m]
        cosa = fnatom('cos', ATOMS[a].rats)
        rest = tuple((x, k if x != a else k - 2) for x, k in m if not (x == a and k == 2))
        q = {k: v for k, v in p.items() if k != m}
        q = padd(q, {rest: c})
        q = padd(q, {mmul(rest, ((cosa, 2),)): -c})
        p = q
    return p


class Verdict(object):
    def __init__(self, kind, why='', cases=0):
        self.kind = kind  # 'eq' 'ne' 'unknown'
        self.why = why
        self.cases = cases

    def __bool__(self):
        return self.kind == 'eq'

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.why)


def decide(a, b, st=None, assume=None, limit=60000):
    """compare two terms for all values of their leaves

    assume: list of condition terms taken to be true
    """
    n = 0
    unknown = None
    budget = [limit]

    def f(s):
        for c in assume or ():
            if not holds(c, s):
                return None
        ra = N(a, s)
        rb = N(b, s)
        return ra, rb
    try:
        for s, r in cases(f, st, budget):
            if r is None:
                continue
            n += 1
            ra, rb = r
            e = same(ra, rb, s)
            if e is True:
                continue
            if not feasible(s):
                continue
            if e is False and splitatoms(s):
                e = None
            why = 'when %s: %s instead of %s' % (s.describe(), clip(showrat(ra)), clip(showrat(rb)))
            if e is None:
                unknown = unknown or why
                continue
            return Verdict('ne', why, n)
    except (Budget, TooBig) as e:
        return Verdict('unknown', 'comparison too large', n)
    except ZeroDivisionError:
        return Verdict('unknown', 'division by an expression that is identically zero', n)
    if unknown:
        return Verdict('unknown', unknown, n)
    return Verdict('eq', '', n)


def splitatoms(s):
    return False


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + '...'


def feasible(s):
    """emptiness test of the linear constraints collected in a store (elimination)"""
    cons = []  # sum coef*mono (<|<=) const
    for qk, (lo, ls, hi, hs) in s.iv.items():
        q = dict(qk)
        if hi is not None:
            cons.append((dict(q), hi, hs))
        if lo is not None:
            cons.append(({m: -c for m, c in q.items()}, -lo, ls))
    vars_ = set()
    for q, c, st_ in cons:
        vars_.update(q)
    for m in list(vars_):
        if len(m) == 1 and m[0][1] == 1:
            lo, hi = atom_bounds(m[0][0], s)
            if hi is not None:
                cons.append(({m: Fraction(1)}, hi, False))
            if lo is not None:
                cons.append(({m: Fraction(-1)}, -lo, False))
    if len(vars_) <= 1 and len(cons) <= 4:
        pass
    for v in sorted(vars_, key=monoorder):
        up = [c for c in cons if c[0].get(v, 0) > 0]
        dn = [c for c in cons if c[0].get(v, 0) < 0]
        rest = [c for c in cons if not c[0].get(v, 0)]
        if len(up) * len(dn) > 400:
            return True
        new = []
        for a in up:
            for b in dn:
                ka = Fraction(1) / a[0][v]
                kb = Fraction(-1) / b[0][v]
                q = padd({m: c * ka for m, c in a[0].items()}, {m: c * kb for m, c in b[0].items()})
                q.pop(v, None)
                new.append((q, a[1] * ka + b[1] * kb, a[2] or b[2]))
        cons = rest + new
        for q, c, strict in cons:
            if not q and (c < 0 or (c == 0 and strict)):
                return False
    for q, c, strict in cons:
        if not q and (c < 0 or (c == 0 and strict)):
            return False
    return True
