"""C08: station statistics survive a JSON round trip."""
from ..suite import Run, construct, judge, n, s, why_unknown
from ..terms import NONE, app, num, string, sym, tim
from ..values import Arr, Dct, Frm, Lib, Lst, Obj, S, Ser, Tab, Tup, ax

GROUPS = (('wind', ('a', 'b', 't_shift')), ('hum', ('a0', 'a1', 'kr', 'month_hour_precip_mean')), ('temp', ('max_delta', 'mean_course')),
          ('precip', ('months', 'stats')), ('glob', ('angstroem', 'bristcamp', 'mean_course')))
FIELDS = ('p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile')
YEAR = tuple(range(1, 13))
FOREIGN = (('object of a class of the user', 'thing'), ('set', "{1, 2}"), ('time stamp', "pd.Timestamp('2010-01-01')"),
           ('index', "pd.date_range('2010-01-01', '2010-01-03')"), ('function', 'lambda: 0'))


def run(ctx):
    every = [(g, k) for g, ks in GROUPS for k in ks]
    trip(ctx, 'everything', every)
    for x in every:
        trip(ctx, 'only %s.%s' % x, [x])
        trip(ctx, 'all but %s.%s' % x, [y for y in every if y != x])
    trip(ctx, 'nothing', [])
    trip(ctx, 'defaults', [('wind', 'a')], keep=('glob',))
    for months in ((1, 2, 12), (7,), (4, 5, 6, 7, 8, 9)):
        trip(ctx, '%d months' % len(months), every, months=months)
    for seasons in ('lists', 'arrays', 'tuple'):
        for levels in (1, 3):
            trip(ctx, 'seasons as %s, %d levels' % (seasons, levels), [('precip', 'months'), ('precip', 'stats')], seasons=seasons, levels=levels)
    trip(ctx, 'no percentile', [('precip', 'stats')], bare=True)
    textual(ctx)
    for label, code in FOREIGN:
        rejected(ctx, label, code)
    cascade(ctx)
    ctx.floor('statistics', 500)
    ctx.floor('unsupported objects', 5)


def keys(*ks):
    return ax('keys', 'list', *[num(k) for k in ks])


def build(r, months, seasons, levels, bare):
    """values of all statistics"""
    i = r.i

    def val(name, *at):
        return app('stat', string(name), *at)
    k0 = tim('key0')
    out = {}
    for g_, k in (('wind', 'a'), ('wind', 'b'), ('wind', 't_shift'), ('hum', 'a0'), ('hum', 'a1'), ('hum', 'kr')):
        out[g_, k] = S(sym('%s.%s' % (g_, k)), 'float')
    mh = ax('keys', 'group', tim('month'), tim('hour'), sym('wet', 'bool'))
    out['hum', 'month_hour_precip_mean'] = i.alloc(Ser(mh, val('mhpm', k0, tim('key1'), tim('key2')), 'series'))
    out['temp', 'max_delta'] = i.alloc(Ser(keys(*months), val('max_delta', k0), 'series'))
    for g_ in ('temp', 'glob'):
        out[g_, 'mean_course'] = i.alloc(Tab(keys(*range(24)), keys(*months), val(g_ + '_course', tim('row'), tim('col'))))
    for k, cs in (('angstroem', 'ab'), ('bristcamp', 'ac')):
        out['glob', k] = i.alloc(Frm(keys(*YEAR), tuple((c, val(k + c, k0)) for c in cs)))
    ss = {None: ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12),)}.get(seasons, ((12, 1, 2), (3, 4, 5), (6, 7, 8, 9, 10, 11)))
    ms = []
    for x in ss:
        if seasons in (None, 'arrays'):
            ms.append(i.alloc(Arr((len(x),), [num(y) for y in x])))
        else:
            ms.append(i.alloc(Lst([n(y) for y in x])))
    out['precip', 'months'] = Tup(ms) if seasons == 'tuple' else i.alloc(Lst(ms))
    cls = r.get('cs')
    cls = i.deref(cls).cls

    def casc(name, scalar):
        f = []
        for k, shape in (('p01', (2, 4)), ('p10', (2, 4)), ('pxx', (2, 4)), ('wxx', (7, 2, 4)), ('threshold', () if scalar else (5,))):
            m = 1
            for d in shape:
                m *= d
            cells = [val('%s.%s' % (name, k), num(j)) for j in range(m)]
            f.append((k, i.alloc(Arr(shape, cells)) if shape else S(cells[0], 'float')))
        f.append(('percentile', S(NONE, 'none') if bare else S(sym(name + '.percentile'), 'float')))
        return i.alloc(Obj(cls, tuple(f)))
    st = []
    for k in range(len(ss)):
        if levels > 1:
            st.append(i.alloc(Lst([casc('s%d.%d' % (k, j), True) for j in range(levels)])))
        else:
            st.append(casc('s%d' % k, False))
    out['precip', 'stats'] = i.alloc(Lst(st))
    return out


def trip(ctx, label, present, keep=(), months=YEAR, seasons=None, levels=1, bare=False):
    what = construct(ctx.repo, 'StationStatistics.from_json', label)
    r = Run(ctx.repo)
    r.i.files = {}
    r.script('''
st = melodist.StationStatistics()
cs = melodist.cascade.CascadeStatistics()
''')
    if r.error or r.dead:
        ctx.undecided(what, r.error or r.dead)
        return
    values = build(r, months, seasons, levels, bare)
    lines, env, want = [], {}, {}
    for g_, ks in GROUPS:
        for k in ks:
            if g_ in keep and (g_, k) not in present:
                continue
            name = 'v_%s_%s' % (g_, k)
            if (g_, k) in present:
                env[name] = values[g_, k]
            else:
                env[name] = S(NONE, 'none')
            want[g_, k] = env[name]
            lines.append('st.%s.%s = %s' % (g_, k, name))
    lines += ["st.to_json('stats.json')", "back = melodist.StationStatistics.from_json('stats.json')"]
    lines += ['%s_%s = %s.%s' % (p, g_, o, g_) for g_, ks in GROUPS for p, o in (('x', 'back'), ('y', 'st'))]
    ctx.count('statistics', len(want))
    r.script('\n'.join(lines), **env)
    if failed(ctx, r, what):
        return
    for g_, ks in GROUPS:
        o = r.i.deref(r.get('x_' + g_))
        mine = r.i.deref(r.get('y_' + g_))
        if not isinstance(o, Dct) or o.open:
            ctx.undecided('%s: %s' % (what, g_), why_unknown(r) or 'not resolved')
            continue
        got = dict(o.items)
        for k in ks:
            where = '%s: %s.%s' % (what, g_, k)
            if k not in got:
                ctx.violated('statistic lost', where, 'no entry after reading')
                continue
            same(ctx, r, where, got[k], dict(mine.items)[k])


def failed(ctx, r, what):
    if r.error or r.dead and r.i.undecided:
        ctx.undecided(what, why_unknown(r))
        return True
    wrong = [e for e in r.i.events if e.kind == 'misread']
    if wrong:
        ctx.violated('JSON read in another form than written', what, '%s at %s' % (wrong[0].data, wrong[0].where))
        return True
    if r.dead:
        ctx.violated('round trip fails', what, r.dead + ': ' + '; '.join(str(e.data) for e in r.i.events if e.kind in ('badcall', 'nokey', 'assert'))[:200])
        return True
    if r.i.undecided:
        ctx.undecided(what, why_unknown(r))
        return True
    return False


def describe(o):
    if isinstance(o, Lib) and o.kind == 'jsonobj':
        return 'a dictionary'
    if isinstance(o, S):
        return 'None' if o.t is NONE else 'a number'
    return {Ser: 'a series', Tab: 'a table', Frm: 'a table', Lst: 'a list', Tup: 'a list', Arr: 'an array', Dct: 'a dictionary'}.get(type(o), 'another object')


def same(ctx, r, what, got, want):
    """the value read back is the one that was written"""
    i = r.i
    a, b = i.deref(got), i.deref(want)

    def differs(why):
        ctx.violated('statistic changed', what, why)
        return False
    if isinstance(b, S):
        if isinstance(a, Arr) and len(a.cells) == 1 and not a.shape:
            a = S(a.cells[0])
        if not isinstance(a, S):
            if type(a).__name__ in ('Opq', 'Lib', 'Alt', 'AltH', 'Symo'):
                ctx.undecided(what, 'value not resolved')
                return None
            return differs('%s instead of %s' % (describe(a), describe(b)))
        if (a.t is NONE) != (b.t is NONE) and a.t.op != 'g':
            return differs('%s instead of %s' % (describe(a), describe(b)))
        if a.t is b.t:
            ctx.holds(what)
            return True
        return judge(ctx, 'statistic changed', what, what, a.t, b.t)
    if isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup, Arr)):
        if isinstance(b, Arr):
            return cells(ctx, r, what, a, b)
        if len(a.items) != len(b.items):
            return differs('%d entries instead of %d' % (len(a.items), len(b.items)))
        return all([same(ctx, r, '%s[%d]' % (what, k), x, y) for k, (x, y) in enumerate(zip(a.items, b.items))])
    if isinstance(b, Arr):
        return cells(ctx, r, what, a, b)
    if isinstance(b, Obj):
        if not isinstance(a, Obj):
            return unlike(ctx, what, a, 'cascade statistics')
        if a.cls is not b.cls:
            return differs('%s instead of %s' % (a.cls.name, b.cls.name))
        fa, fb = dict(a.fields), dict(b.fields)
        for k in sorted(fb):
            if k not in fa:
                differs('no field %s' % k)
            else:
                same(ctx, r, '%s.%s' % (what, k), fa[k], fb[k])
        return True
    if isinstance(b, Ser):
        if not isinstance(a, Ser):
            return unlike(ctx, what, a, 'a series')
        if not labels(ctx, what, 'index', a.axis, b.axis):
            return False
        return judge(ctx, 'statistic changed', what, what, a.t, b.t)
    if isinstance(b, Tab):
        if not isinstance(a, Tab):
            return unlike(ctx, what, a, 'a table')
        if not labels(ctx, what, 'rows', a.rows, b.rows) or not labels(ctx, what, 'columns', a.cols, b.cols):
            return False
        return judge(ctx, 'statistic changed', what, what, a.t, b.t)
    if isinstance(b, Frm):
        if isinstance(a, Tab):
            return labels(ctx, what, 'rows', a.rows, b.axis) and unlike(ctx, what, None, 'a table')
        if not isinstance(a, Frm) or a.open:
            return unlike(ctx, what, a, 'a table')
        if not labels(ctx, what, 'rows', a.axis, b.axis):
            return False
        if [c for c, t in a.cols] != [c for c, t in b.cols]:
            return differs('columns %s instead of %s' % ([c for c, t in a.cols], [c for c, t in b.cols]))
        return all([judge(ctx, 'statistic changed', '%s.%s' % (what, c), '%s.%s' % (what, c), x, y) for (c, x), (d, y) in zip(a.cols, b.cols)])
    ctx.undecided(what, 'value not resolved')
    return None


def unlike(ctx, what, a, want):
    if isinstance(a, (S, Ser, Tab, Frm, Lst, Arr, Dct)) or isinstance(a, Lib) and a.kind == 'jsonobj':
        ctx.violated('statistic changed', what, '%s instead of %s' % (describe(a), want))
        return False
    ctx.undecided(what, 'value not resolved')
    return None


def labels(ctx, what, which, a, b):
    if a is b:
        ctx.holds('%s: %s' % (what, which))
        return True
    if 'opq' in repr(a):
        ctx.undecided('%s: %s' % (what, which), 'labels not resolved')
    else:
        ctx.violated('order or meaning of labels changed', what, '%s are %s instead of %s' % (which, a, b))
    return False


def cells(ctx, r, what, a, b):
    """arrays and nested lists with the same shape and numbers"""
    def flat(v):
        o = r.i.deref(v)
        if isinstance(o, Arr):
            return o.shape, [S(c) for c in o.cells]
        if isinstance(o, (Lst, Tup)):
            parts = [flat(x) for x in o.items]
            if any(p is None for p in parts) or len(set(p[0] for p in parts)) > 1:
                return None
            return (len(parts),) + (parts[0][0] if parts else ()), [c for p in parts for c in p[1]]
        if isinstance(o, S):
            return (), [o]
        return None
    x = flat(a)
    if x is None:
        ctx.undecided(what, 'array not resolved')
        return None
    if x[0] != b.shape:
        ctx.violated('statistic changed', what, 'shape %r instead of %r' % (x[0], b.shape))
        return False
    for k, (p, q) in enumerate(zip(x[1], b.cells)):
        if p.t is not q:
            if judge(ctx, 'statistic changed', '%s[%d]' % (what, k), what, p.t, q) is not True:
                return False
    ctx.holds(what)
    return True


def textual(ctx):
    """the text that is returned is the text of the file"""
    what = construct(ctx.repo, 'StationStatistics.to_json', 'text and file')
    r = Run(ctx.repo)
    r.i.files = {}
    r.script('''
st = melodist.StationStatistics()
st.wind.a = a
text = st.to_json()
nothing = st.to_json('stats.json')
''', a=S(sym('a'), 'float'))
    if failed(ctx, r, what):
        return
    v = r.i.deref(r.get('text'))
    f = r.i.files.get('stats.json')
    if not isinstance(v, S) or v.t.op != 'app' or v.t.args[0] != 'jsontext' or f is None or len(f.parts) != 1:
        ctx.undecided(what, 'text not resolved')
        return
    a, b = [digest(r, r.i.jsons[t.args[1]]) for t in (v.t, f.parts[0])]
    if a == b:
        ctx.holds(what)
    else:
        ctx.violated('file and text differ', what, 'the text returned without a file name is another one')


def digest(r, tree):
    k, x = tree
    if k == 'obj':
        return tuple((n_, digest(r, y)) for n_, y in x)
    if k == 'arr':
        return tuple(digest(r, y) for y in x)
    if k == 'val':
        return str(x.t)
    return (str(x.obj), x.orient, x.digits, x.textorder)


def rejected(ctx, label, code):
    what = construct(ctx.repo, 'StationStatistics.to_json', 'a %s among the statistics' % label)
    for g_, k in (('wind', 'a'), ('precip', 'months')):
        ctx.count('unsupported objects')
        r = Run(ctx.repo)
        r.i.files = {}
        r.script('''
class Thing(object):
    def __init__(self):
        self.value = 1
thing = Thing()
st = melodist.StationStatistics()
st.%s.%s = %s
text = st.to_json()
''' % (g_, k, code))
        where = '%s (%s.%s)' % (what, g_, k)
        if r.error or r.i.undecided:
            ctx.undecided(where, why_unknown(r))
        elif r.dead:
            ctx.holds(where)
        else:
            ctx.violated('unsupported object is written', where, 'to_json returns a text')


def cascade(ctx):
    """from_dict keeps every field under its own name"""
    what = construct(ctx.repo, 'CascadeStatistics.from_dict')
    r = Run(ctx.repo)
    r.script('cs = melodist.cascade.CascadeStatistics()')
    if r.error or r.dead:
        ctx.undecided(what, r.error or r.dead)
        return
    src = build(r, YEAR, None, 1, False)['precip', 'stats']
    x = r.i.deref(src).items[0]
    fields = r.i.deref(x).fields
    ctx.count('statistics', len(fields))
    r.script('back = melodist.cascade.CascadeStatistics.from_dict(d)', d=r.i.alloc(Dct(list(fields))))
    if failed(ctx, r, what):
        return
    same(ctx, r, what, r.get('back'), x)
