"""C17: every wet box is split with the probabilities and the threshold of its class at its level.

The cascade is followed with symbolic statistics (one symbol for every probability, weight and
threshold).  The value graph of every refinement is compared with the split the model defines, for the
first, the last and any other box, all kinds of neighbours and both volume classes.
"""
from ..cascspec import CONFIGS, cell, boxtype, disaggregate, label, levels_of, places, shares, TYPES
from ..report import parallel
from ..suite import construct
from ..terms import ONE, ZERO, add, app, cmp, decide, mul, sub

NAME = 'disagg_prec_cascade'


def settings(lv):
    """(what, box number, assumptions, left wet, right wet)"""
    for lab, q, ass in places(lv.boxes):
        for left in (True, False):
            for right in (True, False):
                if lab == 'first box' and left or lab == 'last box' and right:
                    continue
                a = list(ass)
                if lab != 'first box':
                    x = lv.V(sub(q, ONE))
                    a.append(cmp('lt', ZERO, x) if left else cmp('eq', x, ZERO))
                if lab != 'last box':
                    x = lv.V(add(q, ONE))
                    a.append(cmp('lt', ZERO, x) if right else cmp('eq', x, ZERO))
                yield lab, q, a, left, right


def split(lv, stat, thr, order):
    """verdicts of all wet boxes of a level; order = names of branching and weight draw"""
    for lab, q, ass, left, right in settings(lv):
        kind = boxtype(left, right)
        v = lv.V(q)
        u, w = [app('rand', x, q) for x in order]
        for above in (0, 1):
            a = ass + [cmp('lt', ZERO, v), cmp('lt', thr, v) if above else cmp('le', v, thr)]
            cum = [add(*[cell(stat + 'wxx', j, above, kind) for j in range(k + 1)]) for k in range(7)]
            a.append(cmp('le', w, cum[6]))      # the last class ends at one
            sh = shares(stat, thr, u, w, above, kind)
            for half in (0, 1):
                name = '%s, %s, %s the threshold, %s half' % (lab, TYPES[kind], 'above' if above else 'below', ('first', 'second')[half])
                yield name, decide(lv.half(q, half), mul(sh[half], v), assume=a, limit=6000)


def dry(lv):
    for lab, q, ass in places(lv.boxes):
        for half in (0, 1):
            yield lab, decide(lv.half(q, half), ZERO, assume=list(ass) + [cmp('eq', lv.V(q), ZERO)], limit=6000)


def verdicts(lv):
    best = None
    for order in (lv.rands, lv.rands[::-1]):
        res = list(split(lv, lv.stat, lv.thr, order))
        bad = [x for x in res if x[1].kind != 'eq']
        if best is None or len(bad) < len(best[1]):
            best = res, bad
        if not bad:
            break
    return best[0]


def run(ctx):
    parallel(ctx, one, CONFIGS)
    ctx.floor('configurations', 8)


def one(ctx, levels, hourly, averaged):
    cfg = label(levels, hourly, averaged)
    r = disaggregate(ctx.repo, levels, hourly, averaged)
    what = construct(ctx.repo, NAME, cfg)
    ctx.count('configurations')
    lvs, why = levels_of(r, levels, averaged)
    if lvs is None:
        if r.dead and not r.i.undecided:
            ctx.violated('call always fails', what, r.dead)
        else:
            ctx.undecided(what, why)
        return
    seen = {}       # refinements that differ in number only have one term
    for lv in lvs:
        ctx.count('refinements')
        where = construct(ctx.repo, NAME, '%s; refinement %d' % (cfg, lv.no))
        if len(lv.rands) == 1:
            ctx.violated('one draw for the branching and one for the share', where, 'both are taken from one random number')
            continue
        if len(lv.rands) != 2:
            ctx.undecided(where, '%d random numbers per box' % len(lv.rands))
            continue
        if lv.term not in seen:
            seen[lv.term] = verdicts(lv), list(dry(lv))
        for name, v in seen[lv.term][0]:
            if v.kind == 'eq':
                ctx.holds('%s: %s' % (where, name))
            elif v.kind == 'unknown':
                ctx.undecided('%s: %s' % (where, name), v.why)
            else:
                ctx.violated('wet box is split with the probabilities of its class and level', where, '%s: %s' % (name, v.why))
        for name, v in seen[lv.term][1]:
            if v.kind == 'eq':
                ctx.holds('%s: dry %s' % (where, name))
            elif v.kind == 'unknown':
                ctx.undecided('%s: dry %s' % (where, name), v.why)
            else:
                ctx.violated('dry boxes stay dry', where, '%s: %s' % (name, v.why))
