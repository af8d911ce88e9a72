"""Comparison of terms that contain aggregates: the aggregated values are compared as well."""
from .axes import canon, closure, conj, gr, mask, sameaxis
from .terms import FALSE, NANT, T, TRUE, Verdict, decide, g, isnull, land, lnot, lor, mk, app, num, rebuild, rewrite, subterms, tkey
from .values import root

# aggregates that leave out missing values
SKIP = ('mean', 'sum', 'min', 'max', 'count', 'std', 'var', 'median', 'idxmax', 'idxmin')


def compare(a, b, assume=(), limit=60000, depth=3):
    v = decide(a, b, assume=list(assume), limit=limit)
    if v.kind == 'eq' or depth == 0:
        return v
    a2, b2, unsure = unify(a, b, depth)
    if a2 is not a or b2 is not b:
        v = decide(a2, b2, assume=list(assume), limit=limit)
    if v.kind == 'ne' and unsure:
        return Verdict('unknown', unsure, v.n if hasattr(v, 'n') else 0)
    return v




def apps(t):
    return [u for u in subterms(t) if u.op == 'app' and len(u.args) > 1]


def size(t, memo={}):
    k = memo.get(t)
    if k is None:
        memo[t] = k = 1 + sum(size(x) for x in t.args if isinstance(x, T))
    return k


def unify(a, b, depth):
    unsure = ''
    inb = set(apps(b))
    ina = set(apps(a))
    left = sorted(ina - inb, key=lambda t: (-size(t), str(t)))
    right = sorted(inb - ina, key=lambda t: (-size(t), str(t)))
    if len(left) * len(right) > 400:
        return a, b, ''
    sub = {}
    for y in right:
        for x in left:
            if x.args[0] != y.args[0]:
                continue
            k = alike(x, y, depth)
            if k == 'eq':
                sub[y] = x
                break
            if k == 'unknown':
                unsure = unsure or 'aggregates not comparable: %s' % str(y)[:300]
    if sub:
        b = swap(b, sub)
    return a, b, unsure


def swap(t, sub, memo=None):
    if memo is None:
        memo = {}
    if t in sub:
        return sub[t]
    r = memo.get(t)
    if r is None:
        args = tuple(swap(x, sub, memo) if isinstance(x, T) else x for x in t.args)
        r = t if all(p is q for p, q in zip(args, t.args)) else rebuild(t.op, args)
        memo[t] = r
    return r


def alike(x, y, depth):
    """eq / ne / unknown for two function applications"""
    name = x.args[0]
    if name in ('gagg', 'dagg') or name == 'agg' and len(x.args) == len(y.args) == 4:
        return aggregate(x, y, depth)
    if name == 'count' and len(x.args) == len(y.args) == 3:
        return counted(x, y, depth)
    if len(x.args) != len(y.args):
        return 'ne'
    out = 'eq'
    on = [c for t in x.args if isinstance(t, T) and t.op == 'ax' for c in facts(t)]
    for p, q in zip(x.args[1:], y.args[1:]):
        k = part(p, q, depth, on)
        if k == 'ne':
            return 'ne'
        if k == 'unknown':
            out = k
    return out


def part(p, q, depth, on=()):
    if p is q or p == q:
        return 'eq'
    if not isinstance(p, T) or not isinstance(q, T):
        return 'ne'
    if p.op == 'ax' or q.op == 'ax':
        return 'eq' if p.op == q.op and sameaxis(p, q) else 'ne'
    if p.op == 'lam' and q.op == 'lam':
        return part(p.args[1], q.args[1], depth, on) if p.args[0] == q.args[0] else 'ne'
    if p.op in ('keys', 'kw', 'pair', 'tup') or q.op in ('keys', 'kw', 'pair', 'tup'):
        if p.op != q.op or len(p.args) != len(q.args):
            return 'ne'
        ks = [part(i, j, depth, on) for i, j in zip(p.args, q.args)]
        return 'ne' if 'ne' in ks else 'unknown' if 'unknown' in ks else 'eq'
    if p.op in ('str', 'none') or q.op in ('str', 'none'):
        return 'ne'
    if boolish(p) and boolish(q):
        p, q = g(p, num(1), num(2)), g(q, num(1), num(2))
    return compare(p, q, on, 20000, depth - 1).kind


def boolish(t):
    return t.op in ('cmp', 'and', 'or', 'not', 'isnull', 'bool')


def facts(axis):
    try:
        return list(closure(conj(mask(axis))))
    except Exception:
        return []


def counted(x, y, depth):
    """numbers of records that meet a condition"""
    a, b = x.args[1], y.args[1]
    if sameaxis(a, b):
        return part(x.args[2], y.args[2], depth, facts(a))
    if gr(a) is None or gr(a) != gr(b):
        return 'unknown'
    try:
        p, q = land(mask(a), x.args[2]), land(mask(b), y.args[2])
    except Exception:
        return 'unknown'
    from .suite import axioms
    return compare(g(p, num(1), num(2)), g(q, num(1), num(2)), axioms(p, q) + outside(p, q), 20000, depth - 1).kind


def outside(*ts):
    """values are missing where their source has no record"""
    out = []
    for t in ts:
        has = [u for u in subterms(t) if u.op == 'app' and u.args[0] in ('dayin', 'hourin') and u.args[2] == 0]
        for u in subterms(t):
            if u.op == 'col':
                out += [lor(h, isnull(u)) for h in has if h.args[1] == u.args[0] and u.args[2] == 0]
    return list(dict.fromkeys(out))


def aggregate(x, y, depth):
    if x.args[1] != y.args[1]:
        return 'ne'
    how = x.args[1]
    ax_, ay = x.args[2], y.args[2]
    if x.args[0] == 'gagg':
        kx, ky = list(x.args[3].args), list(y.args[3].args)
        px, py = list(zip(kx, x.args[5:])), list(zip(ky, y.args[5:]))
        if len(px) != len(py):
            return 'ne'
        on = facts(ax_)
        for k, v in px:
            best = 'ne'
            for j, (k2, v2) in enumerate(py):
                a, b = part(k, k2, depth, on), part(v, v2, depth)
                if a == b == 'eq':
                    py.pop(j)
                    best = 'eq'
                    break
                if 'ne' not in (a, b):
                    best = 'unknown'
            if best != 'eq':
                return best
        vx, vy = x.args[4], y.args[4]
    else:
        vx, vy = x.args[3], y.args[3]
        if len(x.args) != len(y.args):
            return 'ne'
        for p, q in zip(x.args[4:], y.args[4:]):
            if part(p, q, depth) != 'eq':
                return 'ne'
    if sameaxis(ax_, ay):
        return part(vx, vy, depth, facts(ax_))
    if how not in SKIP or gr(ax_) is None or gr(ax_) != gr(ay):
        return 'ne'
    try:
        mx, my = mask(ax_), mask(ay)
    except Exception:
        return 'unknown'
    from .suite import axioms
    p, q = g(mx, vx, NANT), g(my, vy, NANT)
    k = compare(p, q, axioms(p, q), 20000, depth - 1).kind
    return k
