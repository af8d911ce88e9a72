"""Mean over the 24 hours of a day, applied to a term.

The mean is linear: constants of the day are taken out, sums are split, a cosine running through whole
periods averages to zero and anything else becomes the daily mean of itself.
"""
from fractions import Fraction

from .axes import dayconst
from .libpd_group import dagg
from .terms import B, N, ONE, Rat, ZERO, add, app, mk, mul, num, power, rewrite, tim, ATOMS, PI
from .values import ax, lam_apply, subst


def wave(t):
    """a cosine or sine that runs through whole periods from hour 0 to 23"""
    if t.op != 'fn' or t.args[0] not in ('sin', 'cos'):
        return False
    a = t.args[1]
    h = tim('hour')
    step = add(subst(a, {h: add(h, ONE)}), mul(num(-1), a))
    r = N(mul(step, power(PI, num(-1))))
    if not isinstance(r, Rat):
        return False
    c = r.const()
    if c is None:
        return False
    k = c * 12
    return k.denominator == 1 and int(k) % 24 != 0


def product_to_sum(fs):
    return None


def mean(t, s, axis, cut=True):
    """term for the mean over the day; s decides the conditions met on the way

    cut: conditions on the hourly value itself are those of limits that are assumed not to be reached
    """
    if dayconst(t):
        return t
    if t.op == 'g' and (cut or dayconst(t.args[0])):
        return mean(t.args[1] if B(t.args[0], s) else t.args[2], s, axis, cut)
    if t.op == 'add':
        return add(*[mean(x, s, axis, cut) for x in t.args])
    if t.op == 'mul':
        out, rest = [], []
        for x in t.args:
            (out if dayconst(x) else rest).append(x)
        if out:
            return mul(*(out + [mean(mul(*rest), s, axis, False)]))
        sums = [x for x in rest if x.op == 'add']
        if sums:
            x = sums[0]
            others = [y for y in rest if y is not x]
            return add(*[mean(mul(*([y] + others)), s, axis, False) for y in x.args])
        gs = [x for x in rest if x.op == 'g' and dayconst(x.args[0])]
        if gs:
            x = gs[0]
            others = [y for y in rest if y is not x]
            return mean(mul(*([x.args[1] if B(x.args[0], s) else x.args[2]] + others)), s, axis, False)
        if len(rest) == 1:
            return mean(rest[0], s, axis, False)
    if wave(t):
        return ZERO
    return dagg('mean', axis, t)


def tables(t, axis):
    """mean of a table over all its hours is the mean over the day"""
    def f(u):
        if u.op == 'app' and u.args[0] == 'rowagg' and u.args[1] == 'mean' and u.args[2] is ax('keys', 'lvl', tim('hour')):
            return app('dagg', 'mean', axis, lam_apply(u.args[3], tim('hour')))
        return u
    return rewrite(t, f)


def expand(t, s, axis):
    """daily means inside a term, split up in the same way"""
    def f(u):
        if u.op == 'app' and u.args[0] == 'dagg' and u.args[1] == 'mean' and u.args[2] is axis:
            return mean(u.args[3], s, axis, False)
        return u
    return rewrite(t, f)
