"""Syntactic layer: modules, scopes, resolution of names to dotted library paths, call graph.

Used for the properties about which interfaces and effects a function may have (not about values).
"""
import ast
import builtins
import os

from .report import Broken


class Func(object):
    def __init__(self, qual, node, mod, cls, parent):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.cls = cls
        self.parent = parent
        self.locals = None

    @property
    def name(self):
        return self.node.name

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Module(object):
    def __init__(self, name, path, rel, tree):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.names = {}     # module-level name -> dotted path or None
        self.stars = []


class Site(object):
    """a reference to a dotted path"""

    def __init__(self, path, node, func, mod, guards, parents):
        self.path = path
        self.node = node
        self.func = func
        self.mod = mod
        self.guards = guards
        self.parents = parents

    def where(self):
        return '%s:%s' % (self.mod.rel, self.func.qual if self.func else '<module>')


def params(node):
    a = node.args
    out = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


class Program(object):
    def __init__(self, repo='/repo', package='melodist'):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.funcs = {}
        base = os.path.join(repo, package)
        if not os.path.isdir(base):
            raise Broken('package %s not found' % package)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', 'test', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-len('.__init__')]
                with open(p, encoding='utf-8') as fh:
                    tree = ast.parse(fh.read(), p)
                self.modules[name] = Module(name, p, rel, tree)
        for m in self.modules.values():
            self.scan_module(m)
        for m in self.modules.values():
            self.scan_funcs(m)
        self.parents = {}
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parents[c] = n
        self.methods = {}
        for f in self.funcs.values():
            if f.cls:
                self.methods.setdefault(f.name, []).append(f)
        self._sites = None

    # -- declarations ---------------------------------------------------------

    def absname(self, m, s):
        base = s.module or ''
        if s.level:
            parts = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        return base

    def bind_import(self, m, s, names):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    names[a.asname] = a.name
                else:
                    names[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = self.absname(m, s)
            for a in s.names:
                if a.name == '*':
                    m.stars.append(base)
                else:
                    names[a.asname or a.name] = base + '.' + a.name

    def scan_module(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    self.bind_import(m, s, m.names)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    m.names[s.name] = m.name + '.' + s.name
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ('=', s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ('=', s.value)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for f in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, f, []))
                    for h in getattr(s, 'handlers', []):
                        visit(h.body)
        visit(m.tree.body)

    def scan_funcs(self, m):
        def visit(node, prefix, cls, parent):
            for s in ast.iter_child_nodes(node):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + '.' + s.name
                    for d in s.decorator_list:
                        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
                            q += '.' + d.attr
                    f = Func(q, s, m, cls if parent is None or cls else None, parent)
                    self.funcs[q] = f
                    visit(s, q + '.<locals>', None, f)
                elif isinstance(s, ast.ClassDef):
                    visit(s, prefix + '.' + s.name, s.name, parent)
                else:
                    visit(s, prefix, cls, parent)
        visit(m.tree, m.name, None, None)

    def func_of(self, m, node):
        """innermost function containing the node"""
        p = self.parents.get(node)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for f in self.funcs.values():
                    if f.node is p:
                        return f
            p = self.parents.get(p)
        return None

    # -- resolution -------------------------------------------------------------

    def local_names(self, f):
        if f.locals is None:
            out = {}
            for p in params(f.node):
                out[p] = ('param',)

            def note(name, what):
                if name in out and out[name] != ('param',):
                    out[name] = ('many',)
                elif name in out:
                    out[name] = ('many',)
                else:
                    out[name] = what

            def visit(n):
                for s in ast.iter_child_nodes(n):
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        note(s.name, ('def', f.qual + '.<locals>.' + s.name))
                        continue
                    if isinstance(s, ast.Lambda):
                        continue
                    if isinstance(s, (ast.Import, ast.ImportFrom)):
                        d = {}
                        self.bind_import(f.mod, s, d)
                        for k, v in d.items():
                            note(k, ('path', v))
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        note(s.targets[0].id, ('=', s.value))
                        visit(s.value)
                        continue
                    if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
                        note(s.id, ('many',))
                    visit(s)
            visit(f.node)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Global):
                    for x in n.names:
                        out.pop(x, None)
            f.locals = out
        return f.locals

    def resolve_name(self, m, f, name, depth=0):
        if depth > 12:
            return None
        g = f
        while g is not None:
            loc = self.local_names(g)
            if name in loc:
                w = loc[name]
                if w[0] == '=':
                    return self.resolve(m, g, w[1], depth + 1)
                if w[0] == 'path':
                    return self.canon(w[1], depth + 1)
                if w[0] == 'def':
                    return w[1]
                return None
            g = g.parent
        return self.module_name(m, name, depth + 1)

    def module_name(self, m, name, depth=0):
        if depth > 24:
            return None
        if name in m.names:
            w = m.names[name]
            if isinstance(w, tuple):
                if w[1] is None:
                    return None
                r = self.resolve(m, None, w[1], depth + 1)
                return r
            return self.canon(w, depth + 1)
        for s in m.stars:
            if s in self.modules:
                r = self.module_name_only(self.modules[s], name, depth + 1)
                if r is not None:
                    return r
        if m.name + '.' + name in self.modules:
            return m.name + '.' + name
        if hasattr(builtins, name):
            return 'builtins.' + name
        return None

    def module_name_only(self, m, name, depth):
        r = self.module_name(m, name, depth)
        if r is not None and r.startswith('builtins.'):
            return None
        return r

    def bound(self, mod, name, seen=()):
        """what a module binds a name to, star imports included"""
        m = self.modules[mod]
        if name in m.names or mod in seen:
            return m.names.get(name)
        for s in m.stars:
            if s in self.modules:
                w = self.bound(s, name, seen + (mod,))
                if w is not None:
                    return w
        return None

    def canon(self, path, depth=0):
        """follow re-exports inside the package"""
        if depth > 24 or path is None:
            return path
        if path in self.modules and '.' in path:
            # a name bound in the parent package hides the submodule of the same name
            up, nm = path.rsplit('.', 1)
            w = self.bound(up, nm) if up in self.modules else None
            if isinstance(w, str) and w != path and depth < 20:
                return self.canon(w, depth + 1)
        if path in self.modules or path in self.funcs:
            return path
        parts = path.split('.')
        if parts[0] != self.package:
            return path
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                r = self.module_name(self.modules[mod], parts[i], depth + 1)
                if r is None or r.startswith('builtins.'):
                    return path
                rest = parts[i + 1:]
                if not rest:
                    return r
                return self.canon('.'.join([r] + rest), depth + 1) if r != mod else path
        return path

    def resolve(self, m, f, e, depth=0):
        """dotted path an expression denotes, or None"""
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            return self.resolve_name(m, f, e.id, depth + 1)
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, f, e.value, depth + 1)
            if b is None:
                return None
            return self.canon(b + '.' + e.attr, depth + 1)
        if isinstance(e, ast.Call):
            # getattr(np.random, 'rand')
            p = self.resolve(m, f, e.func, depth + 1)
            if p == 'builtins.getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                b = self.resolve(m, f, e.args[0], depth + 1)
                if b is not None and isinstance(e.args[1].value, str):
                    return self.canon(b + '.' + e.args[1].value, depth + 1)
            if p in ('builtins.__import__', 'importlib.import_module') and e.args and isinstance(e.args[0], ast.Constant):
                return str(e.args[0].value)
            if p == 'functools.partial' and e.args:
                return self.resolve(m, f, e.args[0], depth + 1)
        return None

    # -- references ---------------------------------------------------------------

    def guards_of(self, node):
        """tests the evaluation of node depends on: (expression, polarity)"""
        out = []
        c = node
        p = self.parents.get(c)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
            if isinstance(p, (ast.If, ast.While)):
                if c in p.body:
                    out.append((p.test, True))
                elif c in p.orelse:
                    out.append((p.test, False))
            elif isinstance(p, ast.IfExp):
                if c is p.body:
                    out.append((p.test, True))
                elif c is p.orelse:
                    out.append((p.test, False))
            c, p = p, self.parents.get(p)
        return out

    def sites(self):
        """every maximal Name/Attribute chain in the package that denotes a dotted path"""
        if self._sites is not None:
            return self._sites
        out = []
        byfunc = {}
        for q, f in self.funcs.items():
            byfunc[f.node] = f

        def visit(m, node, f):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = byfunc[node]
                for d in node.decorator_list:
                    visit(m, d, f)
                for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                    visit(m, d, f)
                for s in node.body:
                    visit(m, s, g)
                return
            if isinstance(node, (ast.Name, ast.Attribute)):
                p = self.resolve(m, f, node)
                if p is not None:
                    out.append(Site(p, node, f, m, None, None))
                    if isinstance(node, ast.Name):
                        return
                    if self.resolve(m, f, node.value) is not None:
                        return
                if isinstance(node, ast.Attribute):
                    out.append(Site('?.' + node.attr, node, f, m, None, None))
                    visit(m, node.value, f)
                return
            if isinstance(node, ast.Call):
                p = self.resolve(m, f, node)
                if p is not None:
                    out.append(Site(p, node, f, m, None, None))
            for c in ast.iter_child_nodes(node):
                visit(m, c, f)
        for m in self.modules.values():
            for s in m.tree.body:
                visit(m, s, None)
        self._sites = out
        return out

    def top(self, f):
        """outermost function around f"""
        while f is not None and f.parent is not None:
            f = f.parent
        return f

    def edges(self):
        """call graph over outermost functions: f -> [(g, site)]"""
        out = {}
        for s in self.sites():
            if s.func is None:
                continue
            f = self.top(s.func)
            for g in self.targets(s):
                g = self.top(g)
                if g is not f:
                    out.setdefault(f, []).append((g, s))
        return out

    def targets(self, s):
        if s.path in self.funcs:
            return [self.funcs[s.path]]
        if s.path.startswith('?.'):
            name = s.path[2:]
            out = list(self.methods.get(name, []))
            # plain data attributes of frames share names with nothing here except properties
            return out
        # class: constructor
        q = s.path + '.__init__'
        if q in self.funcs:
            return [self.funcs[q]]
        # method through class
        return []

    def public(self):
        out = []
        for f in self.funcs.values():
            if f.parent is None and not f.name.startswith('_'):
                out.append(f)
            elif f.parent is None and f.name == '__init__':
                out.append(f)
        return out
