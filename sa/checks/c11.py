"""C11: every code path only uses interfaces the installed libraries provide.

Two layers.  The syntactic one covers every line: names, imports, dotted library paths, keyword
arguments of library functions and methods, frequency names, attributes of the package's own classes
and calls between its functions.  The data-flow one follows the documented configurations and checks
each attribute and call against the class the receiver has there.  The interfaces are read from the
sources of the installed libraries.
"""
import ast
import builtins
import importlib
import inspect
import os
import re
import symtable
import sys

from .. import api, calls
from ..station import jobs, station
from ..suite import Run, X, b, construct, n, none, param, s
from ..syn import Program, params
from ..values import Dct, Lst, ax

LIBS = ('pandas', 'numpy', 'scipy')
MODVARS = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__dict__'}
FREQ = re.compile(r'^-?\d*\.?\d*(D|d|h|min|s|ms|us|ns|W|w|MS|ME|QS|QE|YS|YE|B|b|BME|BMS|BQS|BQE|BYS|BYE|C|bh|cbh|SMS|SME)(-[A-Z]{3})?$')
UNIT = re.compile(r'^(D|d|day|days|h|H|hour|hours|hr|m|min|minute|minutes|S|s|sec|second|seconds|ms|us|ns|W|w|milliseconds?|microseconds?|nanoseconds?|millis?|micros?|nanos?)$')
FREQARG = {'resample': ('rule', 0), 'asfreq': ('freq', 0), 'round': ('freq', 0), 'floor': ('freq', 0), 'ceil': ('freq', 0),
           'to_period': ('freq', 0), 'pandas.date_range': ('freq', 3), 'pandas.Grouper': ('freq', None), 'pandas.timedelta_range': ('freq', 3),
           'pandas.period_range': ('freq', 3), 'pandas.DatetimeIndex': ('freq', 1), 'pandas.bdate_range': ('freq', 3), 'shift': ('freq', 1),
           'pandas.tseries.frequencies.to_offset': ('freq', 0)}
UNITARG = {'pandas.to_timedelta': ('unit', 1), 'pandas.Timedelta': ('unit', 1), 'pandas.to_datetime': ('unit', None), 'pandas.TimedeltaIndex': ('unit', None)}
# objects that occur without a class in the tables: files, regular expressions, results of optimisers, offsets, accessors
OTHERS = {
    'file': set(dir(__import__('io').TextIOWrapper)) | set(dir(__import__('io').BufferedReader)) | set(dir(__import__('io').StringIO)),
    're': set(dir(re.Pattern)) | set(dir(re.Match)),
    'date': set(dir(__import__('datetime').datetime)) | set(dir(__import__('datetime').timedelta)) | set(dir(__import__('datetime').date)),
    'path': set(dir(__import__('pathlib').Path)),
    'collections': set(dir(__import__('collections').OrderedDict)) | set(dir(__import__('collections').deque)) | set(dir(__import__('collections').Counter)),
    'exception': set(dir(Exception)) | {'errno', 'strerror', 'filename', 'code'},
    'function': set(dir(lambda: 0)) | set(dir(type)) | set(dir(property)),
    'optimize': {'x', 'fun', 'success', 'message', 'status', 'nit', 'nfev', 'jac', 'hess', 'nlfev', 'njev', 'cost', 'grad', 'optimality'},
    'offset': {'n', 'name', 'freqstr', 'nanos', 'rule_code', 'kwds', 'base', 'delta', 'is_on_offset', 'rollback', 'rollforward', 'normalize'},
    'indexer': {'iloc', 'loc', 'at', 'iat', 'dtype', 'kind', 'itemsize', 'dt', 'str', 'cat'},
    'warnings': {'category', 'message'},
    'ufunc': {'reduce', 'accumulate', 'outer', 'reduceat', 'at'},
    'config': {'precision', 'max_rows', 'display'},
}


def run(ctx):
    P = Program(ctx.repo)
    ctx.count('modules', len(P.modules))
    ctx.count('functions', len(P.funcs))
    ctx.floor('functions', 60)
    names(ctx, P)
    order(ctx, P)
    Interfaces(ctx, P).run()
    flow(ctx, P)


# names ------------------------------------------------------------------------------

def exported(P, m, seen=None):
    """names a star import of a module of the package binds"""
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = set(m.names)
    for st in m.stars:
        if st in P.modules:
            out |= exported(P, P.modules[st], seen)
    for x in P.modules:
        if x.startswith(m.name + '.') and '.' not in x[len(m.name) + 1:]:
            out.add(x[len(m.name) + 1:])
    return out


def bound_at_module(m):
    out = set()
    for node in ast.walk(m.tree):
        if isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
            out.add(node.id)
        elif isinstance(node, ast.ExceptHandler) and node.name:
            out.add(node.name)
    return out


def names(ctx, P):
    """every name read somewhere is bound somewhere"""
    for m in P.modules.values():
        with open(m.path, encoding='utf-8') as f:
            text = f.read()
        top = symtable.symtable(text, m.path, 'exec')
        # names star imports of library modules bind are unknown
        libstar = [x for x in m.stars if x not in P.modules]
        glob = exported(P, m) | MODVARS | set(dir(builtins))
        glob |= {x.get_name() for x in top.get_symbols() if x.is_assigned() or x.is_imported() or x.is_namespace()}

        def globals_of(t):
            for x in t.get_symbols():
                if x.is_declared_global() and x.is_assigned():
                    glob.add(x.get_name())
            for c in t.get_children():
                globals_of(c)
        globals_of(top)

        def visit(t, path):
            for x in t.get_symbols():
                nm = x.get_name()
                if not x.is_referenced():
                    continue
                ctx.count('names')
                isglobal = x.is_global() or t.get_type() == 'module' and not (x.is_assigned() or x.is_imported() or x.is_namespace())
                if t.get_type() == 'class' and not x.is_global() and (x.is_assigned() or x.is_imported() or x.is_namespace()):
                    continue
                if isglobal and nm not in glob:
                    if libstar:
                        ctx.undecided('name %s in %s' % (nm, m.rel), 'star import of %s' % libstar[0])
                    else:
                        ctx.violated('undefined name', '%s in %s:%s' % (nm, m.rel, path or '<module>'), 'the name is bound nowhere')
                else:
                    ctx.holds('name %s in %s:%s' % (nm, m.rel, path))
            for c in t.get_children():
                visit(c, (path + '.' if path else '') + c.get_name())
        visit(top, '')


def order(ctx, P):
    """a local name is read only where some assignment can have been passed"""
    for f in P.funcs.values():
        ctx.count('function bodies')
        for name, line in Flow(f.node).unbound():
            ctx.violated('name read before it is bound', '%s in %s' % (name, f.qual), 'line %d: no assignment can have been passed' % line)
        ctx.holds('order of names in %s' % f.qual)


class Flow(object):
    """names that may be bound, forward over the statements of one function"""

    def __init__(self, node):
        self.node = node
        self.bad = []
        self.locals = set()
        glob = set()

        def collect(n_):
            for c in ast.iter_child_nodes(n_):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.locals.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    self.locals.add(c.id)
                elif isinstance(c, (ast.Import, ast.ImportFrom)):
                    for a in c.names:
                        self.locals.add((a.asname or a.name).split('.')[0])
                elif isinstance(c, ast.ExceptHandler) and c.name:
                    self.locals.add(c.name)
                elif isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                collect(c)
        collect(node)
        self.locals -= glob
        self.locals |= set(params(node))

    def unbound(self):
        self.block(self.node.body, set(params(self.node)))
        return self.bad

    def read(self, e, have):
        """reads in evaluation order, without nested scopes (they run later) except comprehensions"""
        if e is None:
            return
        if isinstance(e, (ast.Lambda,)):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.read(d, have)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = set(have)
            for k, g in enumerate(e.generators):
                self.read(g.iter, inner)
                inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.read(c, inner)
            if isinstance(e, ast.DictComp):
                self.read(e.key, inner)
                self.read(e.value, inner)
            else:
                self.read(e.elt, inner)
            return
        if isinstance(e, ast.NamedExpr):
            self.read(e.value, have)
            have.add(e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in have:
                self.bad.append((e.id, e.lineno))
            return
        for c in ast.iter_child_nodes(e):
            self.read(c, have)

    def bind(self, t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                self.read(x, have)

    def block(self, stmts, have):
        """returns the names that may be bound afterwards, None if the end is not reached"""
        for st in stmts:
            have = self.stmt(st, have)
            if have is None:
                return None
        return have

    def merge(self, *hs):
        hs = [h for h in hs if h is not None]
        if not hs:
            return None
        return set().union(*hs)

    def assigned(self, st):
        f = Flow.__new__(Flow)
        out = set()
        for c in ast.walk(st):
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            elif isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
        return out

    def stmt(self, st, have):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.read(d, have)
            return have | {st.name}
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return have | {(a.asname or a.name).split('.')[0] for a in st.names}
        if isinstance(st, ast.Assign):
            self.read(st.value, have)
            for t in st.targets:
                self.bind(t, have)
            return have
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                if st.target.id in self.locals and st.target.id not in have:
                    self.bad.append((st.target.id, st.lineno))
            else:
                self.read(st.target, have)
            self.read(st.value, have)
            return have
        if isinstance(st, ast.AnnAssign):
            self.read(st.value, have)
            if st.value is not None:
                self.bind(st.target, have)
            return have
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.read(c, have)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.If):
            self.read(st.test, have)
            return self.merge(self.block(st.body, set(have)), self.block(st.orelse, set(have)))
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.read(st.iter, have)
            loop = have | self.assigned(st)
            self.block(st.body, set(loop))
            after = self.block(st.orelse, set(loop))
            return self.merge(after, loop)
        if isinstance(st, ast.While):
            self.read(st.test, set(have))
            loop = have | self.assigned(st)
            self.block(st.body, set(loop))
            return self.merge(self.block(st.orelse, set(loop)), loop)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.read(it.context_expr, have)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, have)
            r = self.block(st.body, set(have))
            return r
        if isinstance(st, ast.Try):
            start = set(have)
            body = self.block(st.body, set(have))
            some = start | self.assigned(st)
            outs = []
            for h in st.handlers:
                hh = set(some)
                if h.name:
                    hh.add(h.name)
                outs.append(self.block(h.body, hh))
            els = self.block(st.orelse, set(body)) if body is not None else None
            end = self.merge(els if st.orelse else body, *outs)
            if st.finalbody:
                fin = self.block(st.finalbody, set(some))
                if fin is None:
                    return None
                return (end | fin) if end is not None else None
            return end
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
                else:
                    self.read(t, have)
            return have
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.read(c, have)
        if isinstance(st, ast.Match):
            return have | self.assigned(st)
        return have


# library interfaces -----------------------------------------------------------------------

class Interfaces(object):
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.known = None
        self.own = set()
        self.strings = set()
        for m in P.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value.isidentifier():
                    self.strings.add(node.value)
                elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store):
                    self.own.add(node.attr)
                elif isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                    self.own.add(node.name)
                elif isinstance(node, ast.keyword) and node.arg:
                    self.strings.add(node.arg)      # Bunch(a=..)
            for nd in m.tree.body:
                if isinstance(nd, ast.ClassDef):
                    for x in ast.walk(nd):
                        if isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, ast.Name):
                                    self.own.add(t.id)

    def run(self):
        ctx, P = self.ctx, self.P
        self.imports()
        done = set()
        for st in P.sites():
            what = '%s in %s' % (st.path.replace('?.', '.'), st.where())
            par = P.parents.get(st.node)
            call = par if isinstance(par, ast.Call) and par.func is st.node else None
            if not st.path.startswith('?.'):
                ctx.count('library references' if st.path.split('.')[0] != P.package else 'package references')
                r = self.path(st, what)
                if r is False:
                    continue
                if call is not None:
                    self.call(st, call, what)
            else:
                ctx.count('attributes')
                self.attribute(st, call, what)
            if call is not None:
                self.freq(st, call, what)
        self.selfattrs()
        Types(self).run()

    def imports(self):
        ctx, P = self.ctx, self.P
        for m in P.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.Import):
                    for a in node.names:
                        self.module(m, node, a.name)
                elif isinstance(node, ast.ImportFrom):
                    base = P.absname(m, node)
                    for a in node.names:
                        what = 'import of %s.%s in %s' % (base, a.name, m.rel)
                        if base.split('.')[0] == P.package:
                            if base not in P.modules:
                                self.missing('import of a missing module', what, node)
                            elif a.name != '*' and a.name not in exported(P, P.modules[base]) and base + '.' + a.name not in P.modules:
                                self.missing('import of a missing name', what, node)
                            continue
                        if not self.module(m, node, base) or a.name == '*':
                            continue
                        ok = self.member(base, a.name)
                        if ok is False:
                            self.missing('import of a missing name', what, node)

    def missing(self, rule, what, node):
        if self.guarded(node):
            return
        self.ctx.violated(rule, what, 'line %d' % node.lineno)

    def guarded(self, node):
        return guarded(self.P, node)

    def module(self, m, node, name):
        root = name.split('.')[0]
        if root == self.P.package:
            if name not in self.P.modules:
                self.missing('import of a missing module', '%s in %s' % (name, m.rel), node)
                return False
            return True
        if root in sys.stdlib_module_names:
            ok = exists_std(name)
        else:
            ok = api.relof(name, None) is not None or any(
                os.path.exists(os.path.join(api.site(), name.replace('.', '/') + x)) for x in ('', '.so')) or bool(
                [x for x in listdir(os.path.dirname(os.path.join(api.site(), name.replace('.', '/')))) if x.startswith(name.split('.')[-1] + '.')])
        if not ok:
            self.missing('import of a missing module', '%s in %s' % (name, m.rel), node)
            return False
        self.ctx.holds('import of %s in %s' % (name, m.rel))
        return True

    def member(self, base, name):
        """True, False or None (unknown) whether a library module has a name"""
        root = base.split('.')[0]
        if root in sys.stdlib_module_names:
            try:
                mod = importlib.import_module(base)
            except Exception:
                return None
            if hasattr(mod, name):
                return True
            return exists_std(base + '.' + name)
        ns = api.module_names(base)
        if ns is None:
            return None
        if base == 'numpy' and name in ('float', 'int', 'complex', 'object', 'str', 'unicode'):
            return False
        return name in ns

    def path(self, st, what):
        """existence of a dotted path; False when reported"""
        ctx, P = self.ctx, self.P
        parts = st.path.split('.')
        root = parts[0]
        if root == P.package:
            if st.path in P.modules or st.path in P.funcs:
                return True
            for k in range(len(parts) - 1, 0, -1):
                mod = '.'.join(parts[:k])
                if mod in P.modules:
                    if parts[k] not in exported(P, P.modules[mod]) and parts[k] not in MODVARS and parts[k] not in bound_at_module(P.modules[mod]):
                        self.missing('missing attribute of a module of the package', what, st.node)
                        return False
                    return True
            return True
        if root == 'builtins':
            return True
        if len(parts) == 1:
            return True
        if root not in LIBS and root not in sys.stdlib_module_names:
            return None
        mod = parts[0]
        k = 1
        while k < len(parts):
            nxt = mod + '.' + parts[k]
            ok = self.member(mod, parts[k])
            if ok is False:
                if isinstance(st.node, ast.Call):
                    return None
                self.missing('missing name in a library', what, st.node)
                return False
            if ok is None:
                return None
            if self.ismodule(nxt):
                mod = nxt
                k += 1
                continue
            # class attributes
            if k + 1 < len(parts):
                h = api.has(nxt, parts[k + 1])
                if h is False:
                    self.missing('missing name in a library', what, st.node)
                    return False
                if h is None and root in sys.stdlib_module_names:
                    try:
                        o = importlib.import_module(mod)
                        for x in parts[k:]:
                            o = getattr(o, x)
                    except AttributeError:
                        self.missing('missing name in a library', what, st.node)
                        return False
                    except Exception:
                        pass
            break
        ctx.holds(what)
        return True

    def ismodule(self, name):
        if name.split('.')[0] in sys.stdlib_module_names:
            return exists_std(name)
        return api.relof(name, None) is not None

    # -- calls ------------------------------------------------------------------------

    def shape(self, call):
        """(positional, keywords, complete) of a call; None for positional when starred"""
        if any(isinstance(a, ast.Starred) for a in call.args):
            return None
        kws = [k.arg for k in call.keywords if k.arg is not None]
        return len(call.args), kws, all(k.arg is not None for k in call.keywords)

    def call(self, st, call, what):
        P, ctx = self.P, self.ctx
        sh = self.shape(call)
        if sh is None:
            return
        nargs, kws, complete = sh
        if st.path.split('.')[0] == P.package:
            f = P.funcs.get(st.path) or P.funcs.get(st.path + '.__init__')
            if f is None:
                return
            ctx.count('calls within the package')
            isinit = st.path not in P.funcs
            bound = isinit
            if f.cls and not isinit:
                bound = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.node.decorator_list)
            sig = api.sig_of(f.node, bound)
            why = api.accepts(sig, nargs, kws, complete)
            if why:
                self.missing('call does not match the function', what + ': ' + why, call)
            else:
                ctx.holds('call of ' + what)
            return
        if st.path.split('.')[0] == 'builtins':
            try:
                sig = inspect.signature(getattr(builtins, st.path.split('.')[1]))
            except (ValueError, TypeError, AttributeError):
                return
            try:
                (sig.bind if complete else sig.bind_partial)(*[None] * nargs, **dict.fromkeys(kws))
                ctx.holds('call of ' + what)
            except TypeError as e:
                self.missing('call does not match the library function', what + ': ' + str(e), call)
            return
        sigs = api.function_sigs(st.path)
        if not sigs:
            return
        ctx.count('library calls')
        whys = [api.accepts(x, nargs, kws, complete and not any('dtype' == y for y in x[3])) for x in sigs]
        if all(whys):
            why = next((w for w in whys if w.startswith('no argument')), whys[-1])
            self.missing('call does not match the library function', what + ': ' + why, call)
        else:
            ctx.holds('call of ' + what)

    def classes(self):
        if self.known is None:
            self.known = {}
            for c in list(api.CLASSES) + list(api.BUILTIN):
                m = api.members(c)
                if m is not None:
                    self.known[c] = m
        return self.known

    def attribute(self, st, call, what):
        attr = st.path[2:]
        ctx = self.ctx
        if isinstance(st.node.ctx, ast.Store) or attr in self.own or attr in self.strings:
            if attr in self.own and call is not None and not any(attr in m for m in self.classes().values()):
                self.owncall(st, call, attr, what)
            return
        if any(attr in m for m in OTHERS.values()) and not any(attr in m for m in self.classes().values()):
            return
        have = [c for c, m in self.classes().items() if attr in m]
        if not have and not any(attr in m for m in OTHERS.values()):
            if len(self.classes()) < len(api.CLASSES):
                return ctx.undecided(what, 'library classes not readable')
            return self.missing('attribute that no library class has', what, st.node)
        ctx.holds(what)
        if call is None or any(attr in m for m in OTHERS.values()):
            return
        sh = self.shape(call)
        if sh is None:
            return
        whys = []
        for c in have:
            if c in api.BUILTIN:
                if sh[1] and c not in ('dict', 'str', 'list'):
                    continue
                return
            sigs = api.method_sigs(c, attr)
            if not sigs:
                return
            w = [api.accepts(x, sh[0], sh[1], sh[2]) for x in sigs]
            if not all(w):
                return ctx.holds('call of ' + what)
            whys.append(w[-1])
        if whys:
            self.missing('call does not match the library method', what + ': ' + whys[0], call)

    def owncall(self, st, call, attr, what):
        """a method that only classes of the package have"""
        fs = [f for f in self.P.methods.get(attr, []) if not any(isinstance(d, ast.Attribute) or isinstance(d, ast.Name) and d.id == 'property'
                                                                  for d in f.node.decorator_list)]
        sh = self.shape(call)
        if not fs or sh is None:
            return
        whys = [api.accepts(api.sig_of(f.node, True), *sh) for f in fs]
        if all(whys):
            self.missing('call does not match the method', what + ': ' + whys[0], call)
        else:
            self.ctx.holds('call of ' + what)

    def freq(self, st, call, what):
        path = st.path[2:] if st.path.startswith('?.') else st.path
        for table, rx, name in ((FREQARG, FREQ, 'frequency name'), (UNITARG, UNIT, 'unit name')):
            if path not in table:
                continue
            kw, pos = table[path]
            e = next((k.value for k in call.keywords if k.arg == kw), None)
            if e is None and pos is not None and len(call.args) > pos:
                e = call.args[pos]
            if isinstance(e, ast.Name):
                f = st.func
                w = self.P.local_names(f).get(e.id) if f is not None else None
                e = w[1] if w and w[0] == '=' else None
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                self.ctx.count('frequency names')
                if not rx.match(e.value) and any(x.isalpha() for x in e.value):
                    self.missing('unknown %s' % name, "'%s' of %s" % (e.value, what), call)
                else:
                    self.ctx.holds("%s '%s' of %s" % (name, e.value, what))

    # -- attributes of the package's own classes -------------------------------------------

    def selfattrs(self):
        ctx, P = self.ctx, self.P
        for m in P.modules.values():
            for c in ast.walk(m.tree):
                if not isinstance(c, ast.ClassDef):
                    continue
                have = self.classattrs(m, c)
                if have is None:
                    continue
                for fn in c.body:
                    if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                        continue
                    me = fn.args.args[0].arg
                    if me not in ('self', 'cls'):
                        continue
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                            ctx.count('attributes of own objects')
                            if x.attr not in have:
                                self.missing('missing attribute of an own class', '%s.%s in %s:%s' % (c.name, x.attr, m.rel, fn.name), x)
                            else:
                                ctx.holds('%s.%s in %s' % (c.name, x.attr, fn.name))

    def classattrs(self, m, c):
        """attributes the objects of a class can have; None when open"""
        out = set(dir(object)) | {'__dict__', '__class__'}
        for b_ in c.bases:
            p = self.P.resolve(m, None, b_)
            if p == 'builtins.object':
                continue
            if p and p.startswith('builtins.'):
                out |= set(dir(getattr(builtins, p.split('.')[1])))
                continue
            owner = None
            if p:
                for m2 in self.P.modules.values():
                    for c2 in m2.tree.body:
                        if isinstance(c2, ast.ClassDef) and m2.name + '.' + c2.name == p:
                            owner = (m2, c2)
            if owner is None:
                return None
            x = self.classattrs(*owner)
            if x is None:
                return None
            out |= x
        for n_ in ast.walk(c):
            if isinstance(n_, ast.FunctionDef):
                out.add(n_.name)
                if n_.name in ('__getattr__', '__getattribute__'):
                    return None
            elif isinstance(n_, ast.Attribute) and isinstance(n_.ctx, ast.Store):
                out.add(n_.attr)
            elif isinstance(n_, ast.Attribute) and n_.attr == '__dict__':
                return None
            elif isinstance(n_, ast.Call) and isinstance(n_.func, ast.Name) and n_.func.id == 'setattr':
                return None
        for st in c.body:
            for n_ in ast.walk(st) if not isinstance(st, ast.FunctionDef) else ():
                if isinstance(n_, ast.Name) and isinstance(n_.ctx, ast.Store):
                    out.add(n_.id)
        # attributes set from outside
        out |= {x for x in self.own if x.startswith('_') is False and x in self.outside()}
        return out

    def outside(self):
        """attributes stored on objects other than self"""
        if not hasattr(self, '_outside'):
            self._outside = set()
            for m in self.P.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                        self._outside.add(x.attr)
        return self._outside


SAMETYPE = {'copy', 'fillna', 'dropna', 'reindex', 'sort_index', 'astype', 'shift', 'diff', 'interpolate', 'abs', 'round', 'clip', 'ffill',
            'bfill', 'where', 'mask', 'add', 'sub', 'mul', 'div', 'cumsum', 'replace', 'drop', 'tz_localize', 'head', 'tail', 'rename', 'join', 'merge', 'assign'}
MAKES = {'pandas.Series': 'pandas.Series', 'pandas.DataFrame': 'pandas.DataFrame', 'pandas.read_csv': 'pandas.DataFrame',
         'pandas.read_table': 'pandas.DataFrame', 'pandas.date_range': 'pandas.DatetimeIndex', 'pandas.DatetimeIndex': 'pandas.DatetimeIndex',
         'numpy.zeros': 'numpy.ndarray', 'numpy.ones': 'numpy.ndarray', 'numpy.array': 'numpy.ndarray', 'numpy.arange': 'numpy.ndarray',
         'numpy.linspace': 'numpy.ndarray', 'numpy.full': 'numpy.ndarray', 'pandas.Timedelta': 'pandas.Timedelta',
         'pandas.Timestamp': 'pandas.Timestamp', 'builtins.list': 'list', 'builtins.dict': 'dict', 'builtins.str': 'str', 'builtins.set': 'set',
         'builtins.sorted': 'list'}


SELF = 'the class the name had before'
HINTS = {('write_smet', 'data'): 'pandas.DataFrame'}


class Types(object):
    """classes of local names that an assignment before the use determines"""

    def __init__(self, iface):
        self.iface = iface
        self.P, self.ctx = iface.P, iface.ctx
        self.returns = {}
        self.busy = set()

    def run(self):
        for f in self.P.funcs.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and self.P.func_of(f.mod, x) is f and not isinstance(x.ctx, ast.Store):
                    t = self.type(f, x.value, 0)
                    if t is None or t not in api.CLASSES and t not in api.BUILTIN:
                        continue
                    what = '%s.%s in %s' % (t, x.attr, f.qual)
                    self.ctx.count('attributes of local values')
                    if isinstance(x.ctx, ast.Del):
                        if api.has(t, x.attr):
                            self.iface.missing('attribute of a library object deleted', what, x)
                        continue
                    h = api.has(t, x.attr)
                    if h is False and t == 'pandas.DataFrame' and not self.iscall(x):
                        continue        # may be a column
                    if h is False and t in ('pandas.Series',) and not self.iscall(x):
                        continue        # may be a label
                    if h is False:
                        self.iface.missing('missing attribute of a library object', what, x)
                        continue
                    if h and self.iscall(x) and t in api.CLASSES:
                        call = self.P.parents[x]
                        sh = self.iface.shape(call)
                        sigs = api.method_sigs(t, x.attr)
                        if sh is not None and sigs:
                            whys = [api.accepts(s_, *sh) for s_ in sigs]
                            if all(whys):
                                self.iface.missing('call does not match the library method', what + ': ' + whys[-1], call)
                                continue
                    self.ctx.holds(what)
        for m in self.P.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Del) and (
                        x.attr not in self.iface.own or isinstance(x.value, ast.Attribute) and x.value.attr in ('index', 'columns')):
                    if any(x.attr in mem for mem in self.iface.classes().values()):
                        f = self.P.func_of(m, x)
                        self.iface.missing('attribute of a library object deleted', '%s in %s' % (x.attr, f.qual if f else m.rel), x)

    def iscall(self, x):
        p = self.P.parents.get(x)
        return isinstance(p, ast.Call) and p.func is x

    def type(self, f, e, depth):
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            if e in self.busy:
                return SELF
            self.busy.add(e)
            try:
                return self.reaching(f, e, depth)
            finally:
                self.busy.discard(e)
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str):
            return 'str'
        if isinstance(e, ast.Call):
            p = self.P.resolve(f.mod, f, e.func)
            if p in MAKES:
                return MAKES[p]
            if p in self.P.funcs:
                return self.result(self.P.funcs[p], depth)
            if isinstance(e.func, ast.Attribute) and p is None:
                t = self.type(f, e.func.value, depth + 1)
                if t in (SELF, 'pandas.Series', 'pandas.DataFrame', 'pandas.DatetimeIndex') and e.func.attr in SAMETYPE:
                    return t
            return None
        if isinstance(e, ast.Attribute):
            t = self.type(f, e.value, depth + 1)
            if t in ('pandas.Series', 'pandas.DataFrame') and e.attr in ('values',):
                return 'numpy.ndarray'
            return None
        if isinstance(e, ast.BinOp):
            t = self.type(f, e.left, depth + 1)
            if t in ('pandas.Series', 'pandas.DataFrame') and not isinstance(e.op, ast.MatMult):
                u = self.type(f, e.right, depth + 1)
                return t if u in (None, t, 'numpy.ndarray') and not (u is None and t == 'pandas.Series') else None
            return t if t == 'str' and isinstance(e.op, (ast.Mod, ast.Add)) else None
        return None

    def result(self, g, depth, part=None):
        key = g.qual, part
        if key not in self.returns:
            self.returns[key] = None
            rs = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Return) and self.P.func_of(g.mod, x) is g]
            if part is not None:
                rs = [v.elts[part] if isinstance(v, ast.Tuple) and len(v.elts) > part else None for v in rs]
            ts = {self.type(g, v, depth + 1) if v is not None else None for v in rs}
            if len(ts) == 1:
                self.returns[key] = ts.pop()
        return self.returns[key]

    def assigned(self, f, st, name, depth, use=None):
        """classes the assignments in a statement give a name, None if one of them is unknown"""
        out = set()
        known = 0
        for x in ast.walk(st):
            if isinstance(x, ast.Assign) and len(x.targets) == 1:
                t = x.targets[0]
                if isinstance(t, ast.Name) and t.id == name:
                    known += 1
                    if use is not None and any(y is use for y in ast.walk(x.value)):
                        continue        # the statement of the use itself, in an earlier iteration
                    out.add(self.type(f, x.value, depth + 1))
                elif isinstance(t, ast.Tuple) and isinstance(x.value, ast.Call):
                    for k, y in enumerate(t.elts):
                        if isinstance(y, ast.Name) and y.id == name:
                            g = self.P.funcs.get(self.P.resolve(f.mod, f, x.value.func))
                            out.add(self.result(g, depth, k) if g else None)
                            known += 1
        if known != sum(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(st)) or None in out:
            return None
        return out

    def reaching(self, f, name, depth):
        """class given by the last assignment that is certainly passed before the use"""
        st = name
        while not isinstance(st, ast.stmt):
            st = self.P.parents[st]
            if isinstance(st, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if any(isinstance(x, ast.Name) and x.id == name.id and isinstance(x.ctx, ast.Store) for x in ast.walk(st)):
                    return None
        found = set()
        while True:
            p = self.P.parents.get(st)
            if p is None:
                return None
            block = next((getattr(p, a) for a in ('body', 'orelse', 'finalbody') if isinstance(getattr(p, a, None), list) and st in getattr(p, a)), None)
            if block is None:
                if isinstance(p, ast.ExceptHandler) and st in p.body:
                    block = p.body
                else:
                    return None
            for prev in reversed(block[:block.index(st)]):
                if not any(isinstance(x, ast.Name) and x.id == name.id and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(prev)):
                    continue
                ts = self.assigned(f, prev, name.id, depth)
                if ts is None:
                    return None
                found |= ts
                if isinstance(prev, ast.Assign):
                    found.discard(SELF)
                    return found.pop() if len(found) == 1 else None
            if isinstance(p, ast.FunctionDef):
                if name.id in params(p):
                    found.add(HINTS.get((p.name, name.id)))
                found.discard(SELF)
                return found.pop() if len(found) == 1 else None
            if isinstance(p, (ast.For, ast.While)):
                for x in p.body + p.orelse:
                    ts = self.assigned(f, x, name.id, depth, name)
                    if ts is None:
                        return None
                    found |= ts
            if isinstance(p, (ast.Module, ast.ClassDef, ast.Try, ast.ExceptHandler)):
                return None
            if isinstance(p, ast.For) and any(isinstance(x, ast.Name) and x.id == name.id for x in ast.walk(p.target)):
                return None
            if isinstance(p, ast.With) and any(isinstance(x, ast.Name) and x.id == name.id for it in p.items if it.optional_vars for x in ast.walk(it.optional_vars)):
                return None
            st = p


def listdir(p):
    try:
        return os.listdir(p)
    except OSError:
        return []


def exists_std(name):
    try:
        importlib.import_module(name)
        return True
    except Exception:
        return False


# data flow -----------------------------------------------------------------------------

def flow(ctx, P):
    """attributes and calls of objects whose class is known, in the documented configurations"""
    seen = {}
    for what, r in runs(ctx):
        ctx.count('configurations')
        if r.error:
            ctx.undecided(what, r.error)
            continue
        collect(ctx, P, r, what, seen)
    for key in sorted(seen):
        if seen[key] is None:
            ctx.holds(key)
        else:
            ctx.violated(*seen[key])
    ctx.floor('configurations', 60)


O = ax('in', 'O', 'H')
F = ax('in', 'F', 'M')


def runs(ctx):
    for f, cfg, make, need, near in calls.disaggregations():
        r = Run(ctx.repo)
        r.call(f, *make(r))
        yield construct(ctx.repo, f, cfg), r

    def one(f, cfg, make):
        r = Run(ctx.repo)
        a = make(r)
        if not isinstance(a, tuple):
            a = (a, {})
        r.call(f, a[0], a[1])
        return construct(ctx.repo, f, cfg), r
    obs = ('temp', 'precip', 'glob', 'hum', 'wind', 'ssd')
    day = ('tmean', 'tmin', 'tmax', 'precip', 'glob', 'ssd', 'hum', 'wind')
    three = lambda r: [r.closed('T', ax('span', X), ('T7', 'T14')), r.i.alloc(Dct((('T7', n(7)), ('T14', n(14)))))]
    table = [
        ('detect_gaps', 'hourly', lambda r: [r.closed('O', O, obs), n(3600)]),
        ('detect_gaps', 'options', lambda r: ([r.closed('F', F, obs), n(300)], dict(print_all=b(True), verbose=b(True), print_max=n(3)))),
        ('drop_incomplete_days', 'hourly', lambda r: [r.closed('O', O, obs)]),
        ('drop_incomplete_days', 'shift', lambda r: ([r.closed('F', F, obs)], dict(shift=n(7)))),
        ('prepare_interpolation_data', 'two columns', three),
        ('daily_from_hourly', 'all columns', lambda r: [r.closed('O', O, obs)]),
        ('hourly_index', 'days', lambda r: [r.index(X)]),
        ('hourly_index', 'gaps filled', lambda r: ([r.index(X)], dict(fill_gaps=b(True)))),
        ('distribute_equally', 'mean', lambda r: [r.series('X', 'wind', X)]),
        ('distribute_equally', 'sum', lambda r: ([r.series('X', 'precip', X)], dict(divide=b(True)))),
        ('vapor_pressure', 'series', lambda r: [r.series('O', 'temp', O), r.series('O', 'hum', O)]),
        ('dewpoint_temperature', 'series', lambda r: [r.series('O', 'temp', O), r.series('O', 'hum', O)]),
        ('linregress', 'series', lambda r: [r.series('O', 'temp', O), r.series('O', 'hum', O)]),
        ('linregress', 'statistics', lambda r: ([r.series('O', 'temp', O), r.series('O', 'hum', O)], dict(return_stats=b(True)))),
        ('get_sun_times', 'location', lambda r: [r.index(X), param('lon'), param('lat'), param('tz')]),
        ('calculate_mean_daily_course_by_month', 'series', lambda r: [r.series('O', 'temp', O)]),
        ('calculate_mean_daily_course_by_month', 'normalized', lambda r: ([r.series('O', 'temp', O)], dict(normalize=b(True)))),
        ('fit_cosine_function', 'series', lambda r: [r.series('O', 'wind', O)]),
        ('get_shift_by_data', 'series', lambda r: [r.series('O', 'temp', O), param('lon'), param('lat'), param('tz')]),
        ('calculate_dewpoint_regression', 'frame', lambda r: [r.closed('O', O, obs)]),
        ('calculate_month_hour_precip_mean', 'frame', lambda r: [r.closed('O', O, obs)]),
        ('potential_radiation', 'dates', lambda r: [r.index(O), param('lon'), param('lat'), param('tz')]),
        ('read_smet', 'daily', lambda r: [param('file'), s('d')]),
        ('read_smet', 'hourly', lambda r: [param('file'), s('h')]),
        ('read_dwd', 'daily', lambda r: [param('file'), param('meta')]),
        ('read_dwd', 'hourly', lambda r: ([param('file'), param('meta')], dict(mode=s('h'), skip_last=b(False)))),
        ('write_smet', 'hourly', lambda r: [param('file'), r.closed('O', O, obs), r.i.alloc(Dct(()))]),
        ('write_smet', 'daily', lambda r: ([param('file'), r.closed('X', X, day), r.i.alloc(Dct(()))], dict(mode=s('d'), check_nan=b(False)))),
        ('read_single_knmi_file', 'file', lambda r: [param('file')]),
        ('read_knmi_dataset', 'directory', lambda r: [param('dir')]),
        ('seasonal_subset', 'frame', lambda r: [r.closed('O', O, obs)]),
        ('disagg_prec_cascade', 'frame', lambda r: [r.series('X', 'precip', X), param('stats')]),
    ]
    for f, cfg, make in table:
        yield one(f, cfg, make)
    for call in ('calc_wind_stats()', 'calc_humidity_stats()', 'calc_temperature_stats()', 'calc_precipitation_stats()', 'calc_radiation_stats()',
                 'calc_precipitation_stats(months=[[12, 1, 2], [3, 4, 5]], avg_stats=False, percentile=70)',
                 "calc_radiation_stats(data_daily=daily, day_length=dl, how='annual')", "calc_radiation_stats(data_daily=daily, day_length=dl, how='monthly')",
                 "calc_radiation_stats(data_daily=daily, day_length=dl, how='seasonal')", 'to_json()', "to_json('statistics.json')"):
        r = Run(ctx.repo)
        r.i.facts.update(freq='D', resolution=True, increasing=True)
        r.script('ss = melodist.StationStatistics(data=obs, lon=lon, lat=lat, timezone=tz)\nss.' + call, lon=param('lon'), lat=param('lat'), tz=param('tz'),
                 obs=r.closed('O', O, obs), daily=r.closed(), dl=r.series('S', 'daylength', X))
        yield 'melodist/stationstatistics.py StationStatistics.' + call, r
    for method, options, column, want, assume in jobs():
        r = station(ctx.repo)
        r.script('st.%s(%s)' % (method, options))
        yield 'melodist/station.py Station.%s(%s)' % (method, options), r


def owner(P, rel, line):
    best = None
    for f in P.funcs.values():
        if f.mod.rel == rel and f.node.lineno <= line <= f.node.end_lineno:
            if best is None or f.node.lineno >= best.node.lineno:
                best = f
    return best.qual if best else rel


EXPECTED = ('AttributeError', 'ImportError', 'TypeError', 'ModuleNotFoundError', 'NameError', 'ValueError')


def guarded(P, node):
    """inside a try that expects the failure, or behind a test for the name"""
    p, c = P.parents.get(node), node
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                t = ast.unparse(h.type) if h.type is not None else 'Exception'
                if t in ('Exception', 'BaseException') or any(x in t for x in EXPECTED):
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test and ('hasattr' in ast.unparse(p.test) or '__version__' in ast.unparse(p.test)):
            return True
        c, p = p, P.parents.get(p)
    return False


def at_guarded(P, rel, line):
    m = next((m for m in P.modules.values() if m.rel == rel), None)
    if m is None:
        return False
    return any(guarded(P, x) for x in ast.walk(m.tree) if getattr(x, 'lineno', None) == line)


def collect(ctx, P, r, what, seen):
    for (kind, cls, attr), where in r.i.api.items():
        for rel, line, call in where:
            if rel == 'client' or not rel:
                continue
            at = owner(P, rel, line)
            if kind == 'method':
                h = api.has(cls, attr)
                if h is None:
                    continue
                key = '%s.%s in %s' % (cls, attr, at)
                ctx.count('typed attributes', 0 if key in seen else 1)
                if h is False and not at_guarded(P, rel, line):
                    seen[key] = ('missing attribute of a library object', key, 'line %d, reached by %s' % (line, what))
                else:
                    seen.setdefault(key, None)
            elif kind in ('call',):
                sigs = api.method_sigs(cls, attr)
                if not sigs or call is None:
                    continue
                key = 'call of %s.%s with %s in %s' % (cls, attr, call, at)
                whys = [api.accepts(x, call[0], call[1], False) for x in sigs]
                seen[key] = ('call does not match the library method', key, 'line %d: %s' % (line, whys[-1])) if all(whys) and not at_guarded(P, rel, line) else None
    for e in r.i.events:
        if e.kind not in ('noattr', 'undefined', 'noimport', 'badcall') or str(e.data).startswith('None has no') or r.i.undecided:
            continue
        rel, _, line = str(e.where).rpartition(':')
        if not line.isdigit() or rel == 'client' or not rel:
            continue
        key = '%s in %s' % (e.data, owner(P, rel, int(line)))
        if at_guarded(P, rel, int(line)):
            continue
        seen[key] = ('failing name or call', key, 'line %s, reached by %s' % (line, what))
