"""C12: random numbers come from the two documented methods and the global numpy generator only.

Call graph plus resolution of every name to its library path.  Draw sites are references to
numpy.random functions; each must belong to one of the two stochastic functions or to a helper
that only these call.
"""
import ast

from .. import calls
from ..suite import Run, construct
from ..syn import Program

PRIMARY = ('disagg_prec_cascade', 'disaggregate_wind')
DISPATCH = ('disagg_prec', 'Station.disaggregate_wind', 'Station.disaggregate_precipitation')

# functions of numpy.random that touch the state of the global generator
RESEED = {
    'seed', 'set_state', 'get_state', 'default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937',
    'Philox', 'SFC64', 'PCG64DXSM', 'BitGenerator', 'set_bit_generator', 'get_bit_generator', 'bit_generator', 'mtrand',
}
OTHERRANDOM = ('random', 'secrets', 'uuid')
UNSTABLE = {
    'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.localtime', 'time.gmtime',
    'time.ctime', 'time.strftime', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow',
    'datetime.date.today', 'pandas.Timestamp.now', 'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'os.urandom',
    'os.getpid', 'os.environ', 'os.getenv', 'os.getrandom', 'os.cpu_count', 'os.getcwd', 'builtins.id', 'builtins.hash',
    'builtins.input', 'socket.gethostname', 'platform.node', 'tempfile.mkdtemp', 'tempfile.mkstemp',
    'tempfile.NamedTemporaryFile', 'threading.Thread', 'multiprocessing.Pool', 'numpy.empty', 'numpy.empty_like',
}
SETTERS = {
    'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.setbufsize', 'numpy.set_string_function',
    'pandas.set_option', 'pandas.reset_option', 'pandas.options', 'warnings.filterwarnings', 'warnings.simplefilter',
    'warnings.resetwarnings', 'locale.setlocale', 'os.chdir', 'os.putenv', 'os.umask', 'os.unsetenv', 'time.tzset',
    'sys.setrecursionlimit', 'decimal.setcontext', 'logging.basicConfig', 'logging.disable', 'matplotlib.rcParams',
    'signal.signal', 'gc.disable', 'pandas.set_eng_float_format', 'sys.path', 'sys.modules', 'builtins.setattr',
    'pandas.plotting.register_matplotlib_converters', 'pandas.tseries.register_matplotlib_converters',
    'faulthandler.enable', 'numpy.errstate', 'pandas.option_context', 'warnings.catch_warnings',
}
SCOPED = {'numpy.errstate', 'pandas.option_context', 'warnings.catch_warnings'}
LISTINGS = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk'}
# methods that draw random numbers
RANDMETH = {'rvs', 'sample', 'shuffle', 'permutation', 'permuted', 'random_sample', 'standard_normal', 'random_raw', 'resample_'}


def is_draw(path):
    p = path.split('.')
    return p[:2] == ['numpy', 'random'] and len(p) == 3 and p[2] not in RESEED


def run(ctx):
    P = Program(ctx.repo)
    sites = P.sites()
    ctx.count('modules', len(P.modules))
    ctx.count('functions', len(P.funcs))
    ctx.count('resolved references', len([s for s in sites if not s.path.startswith('?.')]))
    ctx.floor('functions', 60)
    names = {}
    for f in P.funcs.values():
        if f.parent is None:
            names.setdefault((f.cls + '.' if f.cls else '') + f.name, []).append(f)
    prim = []
    for n in PRIMARY:
        if n not in names:
            from ..report import Broken
            raise Broken('function %s not found' % n)
        prim += names[n]
    disp = [f for n in DISPATCH for f in names.get(n, [])]
    draws = {}
    calls = {}
    for s in sites:
        node = s.node
        top = P.top(s.func) if s.func else None
        what = '%s in %s' % (s.path, s.where())
        par = P.parents.get(node)
        called = isinstance(par, ast.Call) and par.func is node
        if is_draw(s.path):
            ctx.count('references to numpy.random draws')
            if top is None:
                ctx.violated('random draw at import', what, 'drawn when the module is imported')
            else:
                draws.setdefault(top, []).append(s)
            continue
        if s.path.startswith('numpy.random.') and s.path.split('.')[2] in RESEED:
            ctx.violated('global generator seeded or replaced', what,
                         'line %d: only the global generator the user can seed may be used' % node.lineno)
            continue
        head = s.path.split('.')[0]
        if head in OTHERRANDOM and s.path != 'random':
            ctx.violated('random source other than the numpy generator', what, 'line %d' % node.lineno)
            continue
        if s.path in UNSTABLE:
            if s.path.startswith('numpy.empty'):
                if called and not filled(P, node):
                    ctx.undecided('uninitialised array', what)
                continue
            ctx.violated('result depends on the environment', what, 'line %d' % node.lineno)
            continue
        if s.path == 'builtins.setattr' or any(s.path == x or s.path.startswith(x + '.') for x in SETTERS):
            base = next(x for x in SETTERS if s.path == x or s.path.startswith(x + '.'))
            if base in SCOPED:
                if called and not in_with(P, par):
                    ctx.undecided('settings context', what)
                continue
            if base == 'builtins.setattr':
                if called and par.args:
                    t = P.resolve(s.mod, s.func, par.args[0])
                    if t is not None and not t.startswith('melodist'):
                        ctx.violated('library setting changed', what, 'line %d' % node.lineno)
                continue
            if base in ('sys.path', 'sys.modules', 'pandas.options', 'matplotlib.rcParams'):
                if not stored(P, node):
                    continue
            if base.startswith('warnings.') and scoped_warning(P, node):
                continue
            ctx.violated('library setting changed', what, 'line %d' % node.lineno)
            continue
        if s.path in LISTINGS and called:
            ctx.count('directory listings')
            if not sorted_use(P, s.func, par):
                ctx.violated('directory order decides the result', what,
                             'line %d: the listing is used without being sorted' % node.lineno)
            continue
        if s.path.startswith('?.') and s.path[2:] in RANDMETH and called:
            if s.path == '?.sample' and any(k.arg == 'random_state' for k in par.keywords):
                pass
            ctx.violated('random method', '%s in %s' % (s.path[2:], s.where()), 'line %d' % node.lineno)
            continue
        if s.path in ('?.iterdir', '?.glob', '?.rglob') and called and s.path != '?.glob':
            if not sorted_use(P, s.func, par):
                ctx.violated('directory order decides the result', '%s in %s' % (s.path[2:], s.where()), 'line %d' % node.lineno)
            continue
    # assignments to attributes of library modules, writes to module-level state of the package
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            targets = []
            if isinstance(n, ast.Assign):
                targets = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                targets = [n.target]
            elif isinstance(n, ast.Delete):
                targets = n.targets
            for t in targets:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    base = e
                    while isinstance(base, (ast.Attribute, ast.Subscript)):
                        base = base.value
                        f = P.func_of(m, n)
                        p = P.resolve(m, f, base)
                        if p is not None:
                            break
                    else:
                        continue
                    if p is None or p.startswith('builtins.'):
                        continue
                    if not p.startswith('melodist'):
                        ctx.violated('library setting changed', '%s in %s:%s' % (p, m.rel, f.qual if f else '<module>'),
                                     'line %d assigns to an attribute of the library' % n.lineno)
                    elif f is not None and p.split('.')[-1] not in ('cls',):
                        if p in P.modules or p in P.funcs or modlevel(P, p):
                            ctx.violated('module state changed', '%s in %s:%s' % (p, m.rel, f.qual),
                                         'line %d: later calls see the change' % n.lineno)
            if isinstance(n, ast.Global):
                f = P.func_of(m, n)
                used = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in n.names]
                if used:
                    ctx.violated('module state changed', '%s in %s:%s' % (', '.join(n.names), m.rel, f.qual), 'global statement')
    mutables(ctx, P)
    setorder(ctx, P)
    # who draws
    ctx.floor('references to numpy.random draws', 1)
    edges = P.edges()
    callers = {}
    for f, lst in edges.items():
        for g, s in lst:
            callers.setdefault(g, set()).add(f)
    allowed = set(prim)
    loose = set()
    # helpers: every caller is allowed
    change = True
    while change:
        change = False
        for f in P.funcs.values():
            if f.parent is None and f not in allowed and callers.get(f) and callers[f] <= allowed and f not in disp:
                allowed.add(f)
                change = True
    value = values(ctx)
    for f, ss in sorted(draws.items(), key=lambda x: x[0].qual):
        ctx.count('functions that draw')
        p = f
        while p.parent is not None and p not in allowed:
            p = p.parent
        if p in allowed:
            allowed.add(f)
        if f not in allowed and escapes(P, f):
            if value.get('disaggregate_wind') is True and False not in value.values():
                ctx.holds('draws of %s belong to the stochastic methods' % f.qual)
            else:
                ctx.undecided(f.qual, 'draws, and is called through a variable')
            loose.add(f)
        elif f not in allowed:
            for s in ss:
                ctx.violated('random draw outside the stochastic methods', '%s in %s' % (s.path, s.where()),
                             'line %d; reached from %s' % (s.node.lineno, ', '.join(sorted(x.qual for x in callers.get(f, [])) or ['callers'])))
        else:
            ctx.holds('draws of %s belong to the stochastic methods' % f.qual)
    # reaching a draw without going through the two functions
    reach = {}

    def reaches(f, seen):
        if f in draws:
            return f
        seen.add(f)
        for g, s in edges.get(f, []):
            if g in prim or g in seen:
                continue
            r = reaches(g, seen)
            if r is not None:
                return r
        return None
    for f in P.funcs.values():
        if f.parent is not None or f in allowed:
            continue
        r = reaches(f, set())
        ctx.count('functions shown not to draw')
        if r is not None and f not in draws and r not in loose:
            ctx.violated('random draw outside the stochastic methods', f.qual, 'reaches %s' % r.qual)
        else:
            ctx.holds('%s does not draw' % f.qual)
    # the stochastic functions are called from their dispatchers only
    ok = set(disp) | allowed
    for f in prim:
        for c in callers.get(f, []):
            if c not in ok and not (callers.get(c) and callers[c] <= ok):
                ctx.violated('random draw outside the stochastic methods', c.qual, 'calls %s' % f.qual)
    # wind: only under method == 'random'
    for f in names['disaggregate_wind']:
        lead = under(P, f, draws, edges, 'random', {f})
        if not lead and value.get('disaggregate_wind') is not True:
            ctx.undecided('random wind', 'no draw found below disaggregate_wind')
        for s, r in lead:
            if r is True or value.get('disaggregate_wind') is True:
                ctx.holds('draw in disaggregate_wind belongs to method random')
            elif r is False:
                ctx.violated('random draw outside the stochastic methods', '%s in %s' % (s.path, s.where()),
                             'line %d: the draw is not limited to method random' % s.node.lineno)
            else:
                ctx.undecided('random wind', 'condition of the draw in line %d' % s.node.lineno)


def under(P, f, draws, edges, name, seen):
    """draws below f and whether each is limited to the method, where it is drawn or on the way there"""
    out = [(s, guarded(P, s.node, name)) for s in draws.get(f, [])]
    for g, s in edges.get(f, []):
        if g in seen:
            continue
        below = under(P, g, draws, edges, name, seen | {g})
        r = guarded(P, s.node, name) if below else None
        if r is True:
            out.append((s, True))
        else:
            out += [(x, v if v is True or r is False else None) for x, v in below]
    return out


def values(ctx):
    """value analysis: none of the other methods reaches a draw; verdict by function"""
    out = {}
    for f, cfg, make, need, near in calls.disaggregations():
        if "'random'" in cfg or 'cascade' in cfg or f == 'disagg_prec_cascade':
            continue
        ctx.count('deterministic methods')
        r = Run(ctx.repo)
        args, kw = make(r)
        r.call(f, args, kw)
        what = construct(ctx.repo, f, cfg)
        drawn = [e for e in r.i.events if e.kind == 'rand']
        if drawn:
            ctx.violated('random draw outside the stochastic methods', what, '%s at %s' % (drawn[0].data, drawn[0].where))
            out[f] = False
        elif r.error or r.dead:
            ctx.undecided(what, r.error or r.dead)
            out.setdefault(f, None)
        else:
            ctx.holds(what + ' does not draw')
            if out.get(f, True) is True:
                out[f] = None if r.i.undecided else True
    ctx.floor('deterministic methods', 35)
    return out


def escapes(P, f):
    """private function that is handed on by name, e.g. in a table of methods"""
    if not f.name.startswith('_') and f.parent is None:
        return False
    for n in P.parents:
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and (n.id if isinstance(n, ast.Name) else n.attr) == f.name:
            p = P.parents.get(n)
            if not (isinstance(p, ast.Call) and p.func is n):
                return True
    return False


def modlevel(P, p):
    mod, _, name = p.rpartition('.')
    return mod in P.modules and name in P.modules[mod].names


def in_with(P, call):
    return isinstance(P.parents.get(call), ast.withitem)


def scoped_warning(P, node):
    p = P.parents.get(node)
    while p is not None:
        if isinstance(p, ast.With) and any('catch_warnings' in ast.dump(i.context_expr) for i in p.items):
            return True
        p = P.parents.get(p)
    return False


def stored(P, node):
    p = P.parents.get(node)
    c = node
    while isinstance(p, (ast.Attribute, ast.Subscript)):
        c, p = p, P.parents.get(p)
    if isinstance(getattr(c, 'ctx', None), (ast.Store, ast.Del)):
        return True
    if isinstance(p, ast.Call) and p.func is c and isinstance(c, ast.Attribute):
        return c.attr in ('append', 'insert', 'update', 'pop', 'clear', 'extend', 'remove', 'setdefault', '__setitem__')
    return False


def filled(P, node):
    return False


def sorted_use(P, f, call):
    """is the listing brought into a definite order before it matters?"""
    p = P.parents.get(call)
    c = call
    while isinstance(p, ast.Call):
        fn = p.func
        if isinstance(fn, ast.Name) and fn.id in ('sorted', 'len', 'set', 'bool', 'any', 'max', 'min'):
            return True
        if isinstance(fn, ast.Name) and fn.id in ('list', 'tuple', 'iter', 'filter', 'map'):
            c, p = p, P.parents.get(p)
            continue
        break
    while isinstance(p, (ast.comprehension, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        c, p = p, P.parents.get(p)
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('sorted', 'len', 'set', 'any'):
            return True
    if isinstance(p, ast.Return):
        return True    # ordered by the caller, looked at by the value analysis
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and f is not None:
        n = p.targets[0].id
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name) and x.func.id == 'sorted' and any(isinstance(a, ast.Name) and a.id == n for a in x.args):
                    return True
                if isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and isinstance(x.func.value, ast.Name) and x.func.value.id == n:
                    return True
    return False


def mutables(ctx, P):
    """module-level containers and mutable defaults changed inside functions"""
    mut = {'append', 'extend', 'insert', 'update', 'pop', 'clear', 'remove', 'setdefault', 'add', 'popitem', 'sort', 'reverse', 'discard'}
    for f in P.funcs.values():
        a = f.node.args
        pos = a.posonlyargs + a.args
        md = set()
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
                    isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'Bunch')):
                md.add(p.arg)
        for n in ast.walk(f.node):
            base = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in mut:
                base = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n.value
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                base = n.target
            if not isinstance(base, ast.Name):
                continue
            if base.id in md:
                ctx.violated('state kept between calls', '%s in %s:%s' % (base.id, f.mod.rel, f.qual), 'line %d changes a mutable default' % n.lineno)
                continue
            g = f
            local = False
            while g is not None:
                if base.id in P.local_names(g):
                    local = True
                g = g.parent
            if not local and base.id in f.mod.names and isinstance(f.mod.names[base.id], tuple):
                ctx.violated('state kept between calls', '%s in %s:%s' % (base.id, f.mod.rel, f.qual), 'line %d changes a module-level object' % n.lineno)
    ctx.count('functions checked for kept state', len(P.funcs))


def setorder(ctx, P):
    """iteration over sets of strings has no fixed order"""
    def isset(f, m, e, depth=0):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            p = P.resolve(m, f, e.func)
            if p in ('builtins.set', 'builtins.frozenset'):
                return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            return isset(f, m, e.left, depth) or isset(f, m, e.right, depth) if isinstance(e.left, (ast.Set, ast.Call)) else False
        if isinstance(e, ast.Name) and f is not None and depth < 3:
            w = P.local_names(f).get(e.id)
            if w and w[0] == '=':
                return isset(f, m, w[1], depth + 1)
        return False
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            it = None
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate', 'zip') and n.args:
                it = n.args[0]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and n.args:
                it = n.args[0]
            if it is None:
                continue
            f = P.func_of(m, n) if not isinstance(n, ast.comprehension) else P.func_of(m, n.iter)
            ctx.count('iterations checked for order')
            if isset(f, m, it):
                par = P.parents.get(n)
                ordered = False
                while par is not None and not isinstance(par, ast.stmt):
                    if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in ('sorted', 'len', 'sum', 'any', 'all', 'set', 'max', 'min', 'frozenset'):
                        ordered = True
                    if isinstance(par, ast.SetComp):
                        ordered = True
                    par = P.parents.get(par)
                if not ordered:
                    ctx.undecided('iteration over a set', '%s line %d' % (m.rel, it.lineno))


def guarded(P, node, name):
    """is node evaluated only when some parameter equals the constant name?"""
    gs = P.guards_of(node)
    seen = False
    for t, pol in gs:
        for x in ast.walk(t):
            if isinstance(x, ast.Constant) and x.value == name:
                seen = True
        if pol and eqtest(t, name):
            return True
        if not pol and netest(t, name):
            return True
    # all other documented names excluded by the guards
    if seen:
        return None
    # leaving the function early in all other cases
    f = node
    while f is not None and not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = P.parents.get(f)
    if f is not None:
        for s in ast.walk(f):
            if isinstance(s, ast.Match):
                return None
            if isinstance(s, ast.If) and any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s)):
                return None
    if any(any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(t)) for t, pol in gs):
        # compared with other names
        if any(not pol for t, pol in gs):
            return None
        return False
    if gs:
        return None
    return False


def eqtest(t, name):
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        if isinstance(t.ops[0], ast.Eq):
            return any(isinstance(x, ast.Constant) and x.value == name for x in [t.left] + t.comparators)
        if isinstance(t.ops[0], ast.In):
            c = t.comparators[0]
            return isinstance(c, (ast.Tuple, ast.List, ast.Set)) and len(c.elts) == 1 and isinstance(c.elts[0], ast.Constant) and c.elts[0].value == name
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        return any(eqtest(v, name) for v in t.values)
    return False


def netest(t, name):
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotEq):
        return any(isinstance(x, ast.Constant) and x.value == name for x in [t.left] + t.comparators)
    return False
