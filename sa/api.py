"""Attribute names of library classes, read from the sources of the installed libraries."""
import ast
import glob
import os

SITE = None


def site():
    global SITE
    if SITE is None:
        c = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
        SITE = c[0] if c else ''
    return SITE


CLASSES = {
    'pandas.Series': ('pandas/core/series.py', 'Series'),
    'pandas.DataFrame': ('pandas/core/frame.py', 'DataFrame'),
    'pandas.Index': ('pandas/core/indexes/base.py', 'Index'),
    'pandas.MultiIndex': ('pandas/core/indexes/multi.py', 'MultiIndex'),
    'pandas.DatetimeIndex': ('pandas/core/indexes/datetimes.py', 'DatetimeIndex'),
    'pandas.TimedeltaIndex': ('pandas/core/indexes/timedeltas.py', 'TimedeltaIndex'),
    'pandas.api.typing.SeriesGroupBy': ('pandas/core/groupby/generic.py', 'SeriesGroupBy'),
    'pandas.api.typing.DataFrameGroupBy': ('pandas/core/groupby/generic.py', 'DataFrameGroupBy'),
    'pandas.api.typing.DatetimeIndexResampler': ('pandas/core/resample.py', 'DatetimeIndexResampler'),
    'pandas.api.typing.Rolling': ('pandas/core/window/rolling.py', 'Rolling'),
    'pandas.Timestamp': ('pandas/_libs/tslibs/timestamps.pyi', 'Timestamp'),
    'pandas.Timedelta': ('pandas/_libs/tslibs/timedeltas.pyi', 'Timedelta'),
    'numpy.ndarray': ('numpy/__init__.pyi', 'ndarray'),
}
BUILTIN = {'list': list, 'dict': dict, 'str': str, 'tuple': tuple, 'set': set, 'int': int, 'float': float, 'bool': bool}
BUILTIN_BASES = {'object': object, 'dict': dict, 'list': list, 'str': str, 'datetime': __import__('datetime').datetime,
                 'timedelta': __import__('datetime').timedelta}

_mods = {}
_done = {}


def module(rel):
    if rel not in _mods:
        p = os.path.join(site(), rel)
        if not os.path.exists(p):
            _mods[rel] = None
        else:
            with open(p, encoding='utf-8') as f:
                _mods[rel] = ast.parse(f.read())
    return _mods[rel]


def relof(name, cur):
    """file of a dotted module name"""
    for suf in ('.pyi', '.py', '/__init__.pyi', '/__init__.py'):
        rel = name.replace('.', '/') + suf
        if os.path.exists(os.path.join(site(), rel)):
            return rel
    return None


def find_class(rel, name, seen=()):
    m = module(rel)
    if m is None or (rel, name) in seen:
        return None
    seen = seen + ((rel, name),)
    for n in ast.walk(m):
        if isinstance(n, ast.ClassDef) and n.name == name:
            return rel, n
    for n in ast.walk(m):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name:
                    if n.level:
                        parts = rel.split('/')[:-1]
                        parts = parts[:len(parts) - (n.level - 1)]
                        full = '.'.join(parts + ([n.module] if n.module else []))
                    else:
                        full = n.module
                    r = relof(full, rel)
                    if r:
                        return find_class(r, a.name, seen)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name and isinstance(n.value, ast.Name):
                    return find_class(rel, n.value.id, seen)
    return None


def class_members(rel, name, depth=0, seen=None):
    seen = seen if seen is not None else set()
    f = find_class(rel, name)
    if f is None:
        if name in BUILTIN_BASES:
            return set(dir(BUILTIN_BASES[name])), True
        return set(), False
    rel, c = f
    if (rel, c.name) in seen:
        return set(), True
    seen.add((rel, c.name))
    out = set(dir(object))
    ok = True
    body = list(c.body)
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
        elif isinstance(n, (ast.If, ast.Try, ast.With)):
            body += [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt)]
    for n in ast.walk(c):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            out.add(n.attr)
    # names added by decorators: delegate_names(..., [...]), inherit_names([...], ...)
    m = module(rel)
    consts = {}
    for n in ast.walk(m):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            consts[n.targets[0].id] = n.value
    for d in c.decorator_list:
        for x in ast.walk(d):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.add(x.value)
            if isinstance(x, ast.Attribute) and x.attr in ('_field_ops', '_datetimelike_ops', '_datetimelike_methods', '_bool_ops', '_object_ops', '_other_ops'):
                out |= datetimelike(x.attr)
    for x in ast.walk(c):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('inherit_names',):
            for y in ast.walk(x):
                if isinstance(y, ast.Constant) and isinstance(y.value, str):
                    out.add(y.value)
    for b in c.bases:
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            bn = b.id
        elif isinstance(b, ast.Attribute):
            bn = b.attr
        else:
            ok = False
            continue
        if bn in ('Generic', 'Protocol', 'ABC'):
            continue
        if bn in BUILTIN_BASES:
            out |= set(dir(BUILTIN_BASES[bn]))
            continue
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            # module.Class
            r = None
            for n in ast.walk(module(rel)):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == b.value.id:
                            r = relof((n.module or '') + '.' + a.name, rel)
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if (a.asname or a.name) == b.value.id:
                            r = relof(a.name, rel)
            if r:
                mm, o2 = class_members(r, bn, depth + 1, seen)
                out |= mm
                ok = ok and o2
                continue
        mm, o2 = class_members(rel, bn, depth + 1, seen)
        out |= mm
        ok = ok and o2
    return out, ok


def datetimelike(attr):
    m = module('pandas/core/arrays/datetimes.py')
    out = set()
    if m is None:
        return out
    for rel in ('pandas/core/arrays/datetimes.py', 'pandas/core/arrays/timedeltas.py', 'pandas/core/arrays/datetimelike.py', 'pandas/core/arrays/period.py'):
        m = module(rel)
        if m is None:
            continue
        for n in ast.walk(m):
            tg = None
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                tg, v = n.target.id, n.value
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                tg, v = n.targets[0].id, n.value
            if tg in (attr, '_field_ops', '_datetimelike_ops', '_datetimelike_methods', '_bool_ops', '_object_ops', '_other_ops') and v is not None:
                for x in ast.walk(v):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        out.add(x.value)
    return out


EXTRA = {
    'pandas.DatetimeIndex': {'freq', 'tz', 'freqstr', 'inferred_freq', 'unit'},
    'numpy.ndarray': set(),
}


def members(cls):
    """(names) of a known class; None when the class or part of it could not be read"""
    if cls in _done:
        return _done[cls]
    r = None
    if cls in BUILTIN:
        r = set(dir(BUILTIN[cls]))
    elif cls in CLASSES:
        rel, name = CLASSES[cls]
        names, ok = class_members(rel, name)
        if names and len(names) > 30:
            r = names | EXTRA.get(cls, set())
            if cls == 'pandas.DatetimeIndex':
                for a in ('_field_ops', '_datetimelike_ops'):
                    r |= datetimelike(a)
            if cls.startswith('pandas.api.typing'):
                r |= {'__getattr__'}
    _done[cls] = r
    return r


def has(cls, attr):
    m = members(cls)
    if m is None:
        return None
    return attr in m


_modnames = {}


def module_names(dotted):
    """public names of an installed library module, None when not readable"""
    if dotted in _modnames:
        return _modnames[dotted]
    _modnames[dotted] = None
    rel = relof(dotted, None)
    if rel is None:
        return None
    out = set()
    cands = [rel]
    for alt in (rel[:-1] if rel.endswith('.pyi') else rel + 'i',):
        if os.path.exists(os.path.join(site(), alt)):
            cands.append(alt)
    dyn = False
    for r in cands:
        m = module(r)
        if m is None:
            continue
        for n in ast.walk(m):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name == '*':
                        base = None
                        if isinstance(n, ast.ImportFrom):
                            if n.level:
                                parts = r.split('/')[:-1]
                                parts = parts[:len(parts) - (n.level - 1)]
                                full = '.'.join(parts + ([n.module] if n.module else []))
                            else:
                                full = n.module
                            base = module_names(full)
                        if base is None:
                            dyn = True
                        else:
                            out |= base
                    else:
                        out.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            out.add(x.id)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
    pk = os.path.dirname(os.path.join(site(), rel))
    if os.path.basename(rel).startswith('__init__'):
        for f in os.listdir(pk):
            out.add(f.split('.')[0])
    if dyn:
        return None
    _modnames[dotted] = out
    return out


# signatures ---------------------------------------------------------------------

def sig_of(node, bound):
    """(positional names, number without default, keyword-only names, *args, **kwargs) of a definition"""
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
    need = len(pos) - len(a.defaults)
    if bound and not static and pos:
        pos = pos[1:]
        need -= 1
    kwneed = [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return (tuple(pos), max(need, 0), tuple(x.arg for x in a.kwonlyargs), tuple(kwneed), a.vararg is not None, a.kwarg is not None,
            len(a.posonlyargs) - (1 if bound and not static and a.posonlyargs else 0))


def accepts(sig, nargs, kws, complete=True):
    """None if a call fits a signature, otherwise the reason"""
    pos, need, kwonly, kwneed, var, kw, nposonly = sig
    if nargs > len(pos) and not var:
        return 'takes %d positional arguments but %d are given' % (len(pos), nargs)
    given = set(pos[:nargs])
    for k in kws:
        if k in given:
            return 'multiple values for argument %s' % k
        if k not in kwonly and (k not in pos[max(nposonly, 0):]) and not kw:
            return 'no argument %s' % k
    if complete:
        miss = [p for p in pos[:need] if p not in given and p not in kws]
        if miss:
            return 'argument %s is missing' % miss[0]
        miss = [p for p in kwneed if p not in kws]
        if miss:
            return 'argument %s is missing' % miss[0]
    return None


def implementations(defs):
    """the definition behind typing overloads, or the overloads where only these are known"""
    real = [n for n in defs if not any('overload' in ast.unparse(d) for d in n.decorator_list)]
    return real or defs


def method_sigs(cls, name):
    """signatures of a method of a known class; None when unknown"""
    if cls not in CLASSES:
        return None
    rel, cn = CLASSES[cls]
    return _method(rel, cn, name, set())


def _method(rel, cn, name, seen):
    f = find_class(rel, cn)
    if f is None:
        return None
    rel, c = f
    if (rel, c.name) in seen:
        return None
    seen.add((rel, c.name))
    out = []
    plain = True
    defs = implementations([n for n in c.body if isinstance(n, ast.FunctionDef) and n.name == name])
    for n in c.body:
        if n in defs:
            for d in n.decorator_list:
                t = ast.unparse(d)
                if 'property' in t or 'cache_readonly' in t or 'deprecate' in t and 'kwarg' in t:
                    plain = False
            out.append(sig_of(n, True))
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name) and t.id == name:
                    return None
    if out:
        return out if plain else None
    for b in c.bases:
        while isinstance(b, ast.Subscript):
            b = b.value
        bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        if bn is None or bn in ('Generic', 'Protocol', 'ABC'):
            continue
        r = rel
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            for n in ast.walk(module(rel)):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == b.value.id:
                            r = relof((n.module or '') + '.' + a.name, rel) or r
        got = _method(r, bn, name, seen)
        if got:
            return got
    return None


def find_function(rel, name, seen=()):
    """definitions of a module-level function: list of nodes, following imports"""
    m = module(rel)
    if m is None or (rel, name) in seen:
        return None
    seen = seen + ((rel, name),)
    out = implementations([n for n in m.body if isinstance(n, ast.FunctionDef) and n.name == name])
    if out:
        return out
    stars = []
    for n in ast.walk(m):
        if isinstance(n, ast.ImportFrom):
            if n.level:
                parts = rel.split('/')[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                full = '.'.join(parts + ([n.module] if n.module else []))
            else:
                full = n.module
            for a in n.names:
                if (a.asname or a.name) == name:
                    r = relof(full, rel)
                    if r:
                        got = find_function(r, a.name, seen)
                        if got:
                            return got
                elif a.name == '*':
                    stars.append(full)
    for full in stars:
        r = relof(full, rel)
        if r:
            got = find_function(r, name, seen)
            if got:
                return got
    return None


def function_sigs(path):
    """signatures of a library function or class given by its dotted path; None when unknown"""
    parts = path.split('.')
    if parts[0] in ('pandas', 'numpy', 'scipy'):
        for cls, (rel, cn) in CLASSES.items():
            if path == cls:
                return _method(rel, cn, '__init__', set())
            if path.startswith(cls + '.') and len(parts) == cls.count('.') + 2:
                return None
        rel = relof('.'.join(parts[:-1]), None)
        if rel is None:
            return None
        cands = [rel]
        alt = rel[:-1] if rel.endswith('.pyi') else rel + 'i'
        if os.path.exists(os.path.join(site(), alt)):
            cands.append(alt)
        out = []
        for r in cands:
            got = find_function(r, parts[-1])
            if got:
                out += [sig_of(n, False) for n in got]
        return out or None
    if len(parts) == 2:
        import importlib
        import inspect
        try:
            f = getattr(importlib.import_module(parts[0]), parts[1])
            ps = inspect.signature(f).parameters.values()
        except Exception:
            return None
        pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        ko = [p for p in ps if p.kind == p.KEYWORD_ONLY]
        return [(tuple(p.name for p in pos), len([p for p in pos if p.default is p.empty]), tuple(p.name for p in ko),
                 tuple(p.name for p in ko if p.default is p.empty), any(p.kind == p.VAR_POSITIONAL for p in ps),
                 any(p.kind == p.VAR_KEYWORD for p in ps), len([p for p in pos if p.kind == p.POSITIONAL_ONLY]))]
    return None
