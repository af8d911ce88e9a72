"""Interval bounds of terms: structural interval arithmetic, refined by the facts of each case."""
from fractions import Fraction

from .terms import B, N, NAN, Budget, Rat, TooBig, Unclear, cases, holds, rbounds

F0, F1 = Fraction(0), Fraction(1)


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def imul(a, b):
    if a == (F0, F0) or b == (F0, F0):
        return F0, F0
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return a[0] * b[0], (None if a[1] is None or b[1] is None else a[1] * b[1])
    if None in a or None in b:
        return None, None
    ps = [x * y for x in a for y in b]
    return min(ps), max(ps)


def interval(t, s, memo):
    """(lo, hi) under the facts of s; NAN if missing there"""
    r = memo.get(t)
    if r is None:
        r = memo[t] = _interval(t, s, memo)
    return r


def _interval(t, s, memo):
    n = N(t, s)
    if n is NAN:
        return NAN
    if not isinstance(n, Rat):
        return None, None
    own = rbounds(n, s)
    op, a = t.op, t.args
    if op == 'g':
        try:
            c = B(a[0], s)
        except Unclear:
            return None, None
        return interval(a[1] if c else a[2], s, memo)
    if op in ('add', 'mul'):
        acc = None
        for x in a:
            y = interval(x, s, memo)
            if y is NAN:
                return NAN
            acc = y if acc is None else (iadd if op == 'add' else imul)(acc, y)
        return meet(own, acc)
    if op == 'pow' and a[1].op == 'num':
        b = interval(a[0], s, memo)
        e = a[1].args[0]
        if b is NAN:
            return NAN
        if e.denominator == 1 and e % 2 == 0 or (b[0] is not None and b[0] >= 0):
            return meet(own, (F0, None))
        return own
    if op == 'fn' and a[0] in ('sin', 'cos'):
        return meet(own, (-F1, F1))
    if op == 'fn' and a[0] in ('exp', 'abs', 'arccos'):
        return meet(own, (F0, None))
    return own


def lower(t, assume=(), limit=20000):
    """(smallest lower bound over all cases, facts of that case); None bound if unbounded"""
    budget = [limit]

    def f(s):
        for c in assume:
            if not holds(c, s):
                return 'skip'
        return interval(t, s, {})
    worst = None
    try:
        for s, r in cases(f, None, budget):
            if r == 'skip' or r is NAN:
                continue
            if r[0] is None:
                return None, s.describe()
            if worst is None or r[0] < worst[0]:
                worst = (r[0], s.describe())
    except (Budget, TooBig):
        return 'unknown', 'too many cases'
    return worst or (F0, 'always missing')
