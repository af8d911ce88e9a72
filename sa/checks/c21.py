"""C21: file access is confined to the given files, which are always closed.

Every reference in the package is resolved to its library path.  References that touch the file
system, processes or the network are classified; for openings the mode, the origin of the file name
and the way the file is closed are followed through the function.
"""
import ast

from ..report import Broken
from ..syn import Program, params

READERS = ('read_smet', 'read_dwd', 'read_single_knmi_file', 'read_knmi_dataset', 'StationStatistics.from_json')
WRITERS = ('write_smet', 'StationStatistics.to_json')
LISTER = 'read_knmi_dataset'

OPEN = {'builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'io.FileIO', 'gzip.GzipFile', 'zipfile.ZipFile',
        'tarfile.open', 'pandas.HDFStore', 'pandas.ExcelFile', 'pandas.ExcelWriter', 'os.fdopen', 'os.open', 'io.TextIOWrapper'}
PANDASREAD = {'read_csv', 'read_table', 'read_json', 'read_fwf', 'read_excel', 'read_hdf', 'read_pickle', 'read_parquet', 'read_feather',
              'read_html', 'read_xml', 'read_sql', 'read_stata', 'read_sas', 'read_orc'}
NUMPYREAD = {'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile', 'numpy.memmap'}
NUMPYWRITE = {'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt'}
CHANGING = {'os.' + x for x in (
    'remove unlink rename renames replace rmdir removedirs truncate mkdir makedirs mkfifo mknod link symlink chmod chown lchown utime '
    'chdir fchdir chroot write ftruncate system popen execl execle execlp execv execve execvp execvpe spawnl spawnle spawnlp spawnv '
    'spawnve spawnvp fork forkpty kill killpg abort _exit startfile posix_spawn').split()}
CHANGINGMODS = ('shutil', 'subprocess', 'tempfile', 'multiprocessing', 'socket', 'urllib', 'http', 'ftplib', 'requests', 'sqlite3', 'dbm',
                'shelve', 'smtplib', 'webbrowser', 'concurrent', 'pty', 'ctypes')
READONLYURL = ('urllib.parse',)
# methods of path and file objects; names no pandas, numpy, str or dict object has
PATHMETHODS = {'unlink', 'rmdir', 'touch', 'write_text', 'write_bytes', 'symlink_to', 'hardlink_to', 'mkdir', 'chmod', 'lchmod', 'truncate_file'}
FRAMEWRITE = {'to_csv', 'to_json', 'to_pickle', 'to_hdf', 'to_excel', 'to_parquet', 'to_feather', 'to_string', 'to_html', 'to_latex', 'to_xml',
              'to_markdown', 'to_stata', 'tofile', 'dump', 'to_orc', 'savefig'}
SAMEPATH = {'builtins.str', 'os.fspath', 'os.path.expanduser', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'pathlib.Path',
            'os.path.expandvars', 'builtins.repr_'}
MEMORY = {'io.StringIO', 'io.BytesIO'}


def run(ctx):
    P = Program(ctx.repo)
    names = {}
    for f in P.funcs.values():
        if f.parent is None:
            names.setdefault((f.cls + '.' if f.cls else '') + f.name, []).append(f)
    for n in READERS + WRITERS:
        if n not in names:
            raise Broken('function %s not found' % n)
    edges = P.edges()

    def callers(top):
        """entry functions from which a function is reached"""
        seen, todo = {top}, [top]
        while todo:
            x = todo.pop()
            for f, gs in edges.items():
                if f not in seen and any(g is x for g, s in gs if not s.path.startswith('?.') or s.func is not None):
                    seen.add(f)
                    todo.append(f)
        return seen
    readers = {f for n in READERS for f in names[n]}
    writers = {f for n in WRITERS for f in names[n]}
    A = Files(ctx, P, names, readers, writers, callers)
    ctx.count('functions', len(P.funcs))
    for s in P.sites():
        A.site(s)
    for f in P.funcs.values():
        A.use(f)
    for n in WRITERS:
        for f in names[n]:
            if not any(f in callers(t) for t in A.written):
                ctx.undecided('writing of %s' % n, 'no opening for writing found')
            else:
                ctx.holds('%s writes its file' % n)
    ctx.count('functions', 0)
    ctx.floor('functions', 60)
    if not A.opened and not ctx.open:
        raise Broken('no file access found')
    ctx.assumptions.append('pandas readers close the files they open themselves')


class Files(object):
    def __init__(self, ctx, P, names, readers, writers, callers):
        self.ctx, self.P, self.names = ctx, P, names
        self.readers, self.writers, self.callers = readers, writers, callers
        self.written = set()
        self.opened = 0
        self.active = []

    def kind(self, top):
        """what the entry functions above may do: set of 'r', 'w', other"""
        out = set()
        for f in self.callers(top):
            if f in self.readers:
                out.add('r')
            elif f in self.writers:
                out.add('w')
        return out

    def site(self, s):
        P, ctx = self.P, self.ctx
        node = s.node
        par = P.parents.get(node)
        call = par if isinstance(par, ast.Call) and par.func is node else None
        what = '%s in %s' % (s.path.lstrip('?.'), s.where())
        line = 'line %d' % node.lineno
        top = P.top(s.func) if s.func else None
        head = s.path.split('.')[0]
        if s.path in OPEN:
            if call is None:
                if isinstance(par, ast.Call) or isinstance(par, ast.keyword):
                    ctx.undecided(what, 'passed on as a function')
                return
            return self.open(s, call, what, top)
        if s.path in CHANGING or head in CHANGINGMODS and '.' in s.path and not any(s.path.startswith(x) for x in READONLYURL):
            ctx.count('file system and process calls')
            if isinstance(P.parents.get(node), (ast.Import, ast.ImportFrom)):
                return
            return ctx.violated('file system or process call', what, line)
        if s.path.startswith('?.') and s.path[2:] in PATHMETHODS and call is not None:
            return ctx.violated('file system or process call', what, line)
        parts = s.path.split('.')
        if call is not None and (parts[0] == 'pandas' and len(parts) == 2 and parts[1] in PANDASREAD or s.path in NUMPYREAD):
            ctx.count('pandas readers')
            self.opened += 1
            return self.reading(s, call, what, top, line)
        if call is not None and s.path in NUMPYWRITE:
            return self.writing(s, call, what, top, line)
        if call is not None and s.path.startswith('?.') and s.path[2:] in FRAMEWRITE:
            target = self.target(call)
            if target is None:
                return
            return self.writing(s, call, what, top, line, target)
        if call is not None and s.path in ('json.dump', 'pickle.dump', 'builtins.print'):
            target = None
            for k in call.keywords:
                if k.arg in ('file', 'fp'):
                    target = k.value
            if s.path != 'builtins.print' and len(call.args) > 1:
                target = call.args[1]
            if target is not None:
                o = self.origin(s.mod, s.func, target)
                if o and o[0] == 'open':
                    return ctx.holds('%s %s' % (what, line))
                if o and o[0] == 'path' and o[1] in ('sys.stdout', 'sys.stderr') or o and o[0] == 'memory':
                    return
                return ctx.undecided(what, 'target not resolved')
        if call is not None and s.path in ('glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk'):
            return self.listing(s, call, what, top, line)

    def target(self, call):
        """where a frame method writes to; None for a method that returns text"""
        for k in call.keywords:
            if k.arg in ('path_or_buf', 'buf', 'path', 'excel_writer', 'file', 'fid'):
                return None if isinstance(k.value, ast.Constant) and k.value.value is None else k.value
        if call.args and not (isinstance(call.args[0], ast.Constant) and call.args[0].value is None):
            return call.args[0]
        return None

    # -- openings --------------------------------------------------------------------

    def mode(self, s, call):
        m = None
        if len(call.args) > 1:
            m = call.args[1]
        for k in call.keywords:
            if k.arg == 'mode':
                m = k.value
            if k.arg is None:
                return None
        if m is None:
            return 'r'
        return self.const(s.mod, s.func, m)

    def const(self, mod, func, e):
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, str) else None
        if isinstance(e, ast.Name) and func is not None:
            w = self.P.local_names(func).get(e.id)
            if w and w[0] == '=':
                return self.const(mod, func, w[1])
            if w is None:
                w = mod.names.get(e.id)
                if isinstance(w, tuple) and w[1] is not None:
                    return self.const(mod, func, w[1])
        return None

    def open(self, s, call, what, top):
        ctx, P = self.ctx, self.P
        line = 'line %d' % call.lineno
        ctx.count('opened files')
        self.opened += 1
        if top is None:
            return ctx.violated('file opened at import', what, line)
        if not call.args and not any(k.arg in ('file', 'filename', 'name') for k in call.keywords):
            return ctx.undecided(what, 'no file name')
        name = call.args[0] if call.args else next(k.value for k in call.keywords if k.arg in ('file', 'filename', 'name'))
        mode = self.mode(s, call) if s.path in ('builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open') else None
        kinds = self.kind(top)
        if mode is None:
            ctx.undecided('%s mode' % what, 'mode of the file not resolved')
        elif set(mode) & set('wax+'):
            self.written.add(top)
            if 'r' in kinds:
                ctx.violated('reading function opens a file for writing', what, "%s: mode '%s'" % (line, mode))
            elif not kinds:
                ctx.violated('file written by a function that does not write files', what, '%s: mode %r' % (line, mode))
            elif mode.replace('b', '').replace('t', '') != 'w':
                ctx.violated('named file is not replaced', what, "%s: mode '%s'" % (line, mode))
            else:
                ctx.holds('%s mode' % what)
        elif not kinds:
            ctx.violated('file read by a function that does not read files', what, line)
        elif kinds == {'w'}:
            ctx.violated('writing function does not write its file', what, "%s: mode '%s'" % (line, mode))
        else:
            ctx.holds('%s mode' % what)
        self.named(s, name, what, line)
        c = self.closed(s, call)
        if c is True:
            ctx.holds('%s closed' % what)
        elif c is None:
            ctx.undecided('%s closed' % what, 'closing not resolved')
        else:
            ctx.violated('opened file is not closed on every way out', what, '%s: %s' % (line, c))

    def closed(self, s, call):
        P = self.P
        par = P.parents.get(call)
        if isinstance(par, ast.withitem) and par.context_expr is call:
            return True
        if isinstance(par, ast.Call):
            p = P.resolve(s.mod, s.func, par.func)
            if p == 'contextlib.closing':
                q = P.parents.get(par)
                return True if isinstance(q, ast.withitem) else None
            if isinstance(par.func, ast.Attribute) and par.func.attr == 'enter_context':
                return True
            return 'the file object is only passed on to %s' % ast.unparse(par.func)
        if isinstance(par, (ast.Attribute, ast.For, ast.comprehension)):
            return 'the file object is used without being kept'
        if isinstance(par, ast.Return):
            return None
        target = None
        if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
            target = par.targets[0].id
        elif isinstance(par, ast.NamedExpr):
            return None
        if isinstance(par, ast.IfExp):
            return None
        if target is None:
            return 'the file object is not kept' if isinstance(par, ast.Expr) else None
        block = self.block(par)
        if block is None:
            return None
        k = block.index(par)
        for st in block[k + 1:]:
            if isinstance(st, ast.With) and any(isinstance(it.context_expr, ast.Name) and it.context_expr.id == target for it in st.items):
                return True
            if isinstance(st, ast.Try) and self.closes(st.finalbody, target):
                return True
            if self.mayfail(st):
                if self.anyclose(s.func, target):
                    return 'statements between opening and closing can fail (line %d)' % st.lineno
                return 'it is never closed'
        if self.anyclose(s.func, target):
            # inside a try whose finally closes it?
            p = P.parents.get(par)
            while p is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
                if isinstance(p, ast.Try) and self.closes(p.finalbody, target):
                    return True
                p = P.parents.get(p)
            return None
        return 'it is never closed'

    def block(self, st):
        p = self.P.parents.get(st)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(p, f, None)
            if isinstance(b, list) and st in b:
                # the closing finally may also be that of the surrounding try
                return b
        return None

    def closes(self, stmts, name):
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == name:
                    return True
        return False

    def anyclose(self, func, name):
        return func is not None and self.closes(func.node.body, name)

    def mayfail(self, st):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'close':
            return False
        return any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Raise, ast.For)) for n in ast.walk(st))

    # -- origin of file names -----------------------------------------------------------

    def named(self, s, e, what, line):
        o = self.origin(s.mod, s.func, e)
        if o is None:
            return self.ctx.undecided('%s file name' % what, 'origin of %s not resolved' % ast.unparse(e))
        if o[0] in ('param', 'each', 'memory', 'open', 'listed'):
            return self.ctx.holds('%s file name' % what)
        self.ctx.violated('file is not the one given', what, '%s: %s' % (line, o[1]))

    def origin(self, mod, func, e, depth=0):
        """('param', name), ('each', name), ('listed',), ('memory',), ('open',), ('other', why) or None"""
        P = self.P
        if depth > 10:
            return None
        if isinstance(e, ast.Constant):
            return ('other', 'fixed name %r' % (e.value,))
        if isinstance(e, ast.Attribute):
            p = P.resolve(mod, func, e)
            if p:
                return ('path', p)
            return None
        if isinstance(e, ast.Call):
            p = P.resolve(mod, func, e.func)
            if p in SAMEPATH and len(e.args) == 1:
                return self.origin(mod, func, e.args[0], depth + 1)
            if p in MEMORY:
                return ('memory',)
            if p in OPEN:
                return ('open',)
            if p in ('os.path.join', 'os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.path.split', 'builtins.format'):
                return self.derived(mod, func, e, depth)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'replace', 'lower', 'upper', 'join', 'with_suffix', 'with_name', 'rstrip_'):
                return self.derived(mod, func, e, depth)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('strip', 'lstrip', 'rstrip', 'expanduser', 'resolve', 'absolute'):
                return None
            return None
        if isinstance(e, (ast.BinOp, ast.JoinedStr)):
            return self.derived(mod, func, e, depth)
        if isinstance(e, ast.Subscript):
            return self.origin_of_iter(mod, func, e.value, depth + 1)
        if isinstance(e, ast.IfExp):
            a, b = self.origin(mod, func, e.body, depth + 1), self.origin(mod, func, e.orelse, depth + 1)
            if a is None or b is None:
                return None
            return a if a[0] == 'other' else b
        if isinstance(e, ast.Name):
            return self.name(mod, func, e.id, depth)
        return None

    def derived(self, mod, func, e, depth):
        used = [self.origin(mod, func, n, depth + 1) for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
        if any(u and u[0] in ('param', 'again') for u in used):
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
                return None
            return ('other', 'name derived from the given one: %s' % ast.unparse(e))
        return None

    def name(self, mod, func, ident, depth):
        key = (func.qual if func else mod.name, ident)
        if key in self.active:
            return ('again', ident)
        self.active.append(key)
        try:
            return self.name_(mod, func, ident, depth)
        finally:
            self.active.pop()

    def name_(self, mod, func, ident, depth):
        P = self.P
        g = func
        while g is not None:
            bound = []
            isparam = ident in params(g.node)
            for n in ast.walk(g.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not g.node:
                    continue
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == ident:
                            bound.append(('=', n.value))
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == ident for x in t.elts):
                            bound.append(('?', None))
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.target.id == ident:
                    bound.append(('+', n) if isinstance(n, ast.AugAssign) else ('=', n.value))
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == ident for x in ast.walk(n.target)):
                    bound.append(('for', n))
                elif isinstance(n, ast.withitem) and n.optional_vars is not None and isinstance(n.optional_vars, ast.Name) and n.optional_vars.id == ident:
                    bound.append(('with', n.context_expr))
            if isparam or bound:
                break
            g = g.parent
        else:
            p = P.resolve_name(mod, func, ident)
            return ('path', p) if p else None
        # nested functions are defined in g: their own bindings were skipped only for lambdas and definitions
        outs = []
        if isparam:
            if g.parent is not None:
                outs.append(self.argument(mod, g, ident, depth))
            else:
                outs.append(self.called(g, ident, depth))
        for k, v in bound:
            if k == '=' and v is not None:
                outs.append(self.origin(mod, g, v, depth + 1))
            elif k == '+':
                outs.append(('other', 'name derived from the given one: %s' % ast.unparse(v)))
            elif k == 'for':
                outs.append(self.origin_of_iter(mod, g, v.iter, depth + 1))
            elif k == 'with':
                outs.append(self.origin(mod, g, v, depth + 1))
            else:
                outs.append(None)
        for o in outs:
            if o and o[0] == 'other':
                return o
        if any(o is None for o in outs):
            return None
        outs = [o for o in outs if o[0] != 'again']
        return outs[0] if outs else None

    def argument(self, mod, g, ident, depth):
        """what a nested function receives for a parameter"""
        outer = g.parent
        outs = []
        ps = params(g.node)
        k = ps.index(ident)
        for n in ast.walk(outer.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == g.name:
                v = n.args[k] if k < len(n.args) else next((x.value for x in n.keywords if x.arg == ident), None)
                outs.append(self.origin(mod, outer, v, depth + 1) if v is not None else None)
        for o in outs:
            if o and o[0] == 'other':
                return o
        if not outs or any(o is None for o in outs):
            return None
        return outs[0]

    def called(self, g, ident, depth):
        """a parameter of an outer function; helpers are followed to their callers"""
        if g in self.readers or g in self.writers:
            return ('param', ident)
        outs = []
        ps = params(g.node)
        k = ps.index(ident) - (1 if g.cls and ps and ps[0] in ('self', 'cls') else 0)
        for s in self.P.sites():
            if s.path == g.qual or s.path == '?.' + g.name:
                c = self.P.parents.get(s.node)
                if isinstance(c, ast.Call) and c.func is s.node:
                    v = c.args[k] if k < len(c.args) else next((x.value for x in c.keywords if x.arg == ident), None)
                    outs.append(self.origin(s.mod, s.func, v, depth + 1) if v is not None else None)
        for o in outs:
            if o and o[0] == 'other':
                return o
        if any(o is None for o in outs):
            return None
        return outs[0] if outs else ('param', ident)

    def origin_of_iter(self, mod, func, e, depth):
        if depth > 10:
            return None
        if isinstance(e, (ast.List, ast.Tuple)):
            outs = [self.origin(mod, func, x, depth + 1) for x in e.elts]
            for o in outs:
                if o and o[0] == 'other':
                    return o
            return outs[0] if outs and all(o is not None for o in outs) else None
        if isinstance(e, ast.Call):
            p = self.P.resolve(mod, func, e.func)
            if p in ('builtins.sorted', 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.reversed', 'builtins.iter') and e.args:
                return self.origin_of_iter(mod, func, e.args[0], depth + 1)
            if p in ('glob.glob', 'glob.iglob'):
                return ('listed',)
            if p == 'builtins.enumerate':
                return self.origin_of_iter(mod, func, e.args[0], depth + 1) if e.args else None
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.origin(mod, func, e.elt, depth + 1)
        if isinstance(e, ast.Name):
            g = func
            while g is not None:
                w = self.P.local_names(g).get(e.id)
                if w is not None:
                    if w[0] == '=':
                        return self.origin_of_iter(mod, g, w[1], depth + 1)
                    if w[0] == 'param':
                        return ('each', e.id)
                    return self.many(mod, g, e.id, depth)
                g = g.parent
            return None
        if isinstance(e, ast.Subscript):
            return self.origin_of_iter(mod, func, e.value, depth + 1)
        if isinstance(e, ast.IfExp):
            a, b = self.origin_of_iter(mod, func, e.body, depth + 1), self.origin_of_iter(mod, func, e.orelse, depth + 1)
            return a if a and b else None
        return None

    def many(self, mod, g, ident, depth):
        outs = [('each', ident)] if ident in params(g.node) else []
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == ident for t in n.targets):
                outs.append(self.origin_of_iter(mod, g, n.value, depth + 1))
        for o in outs:
            if o and o[0] == 'other':
                return o
        return outs[0] if outs and all(outs) else None

    # -- readers, writers, listings --------------------------------------------------------

    def reading(self, s, call, what, top, line):
        ctx = self.ctx
        if not call.args and not call.keywords:
            return
        e = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg in ('filepath_or_buffer', 'path_or_buf', 'io', 'path', 'fname')), None)
        if e is None:
            return ctx.undecided(what, 'no file name')
        o = self.origin(s.mod, s.func, e)
        for k in call.keywords:
            if k.arg in ('chunksize', 'iterator') and not (isinstance(k.value, ast.Constant) and not k.value.value):
                if not isinstance(self.P.parents.get(call), ast.withitem):
                    ctx.violated('opened file is not closed on every way out', what, '%s: the reader is used without with' % line)
        if o and o[0] in ('memory', 'open'):
            return ctx.holds('%s %s' % (what, ast.unparse(e)))
        if top is None or not self.kind(top):
            return ctx.violated('file read by a function that does not read files', what, line)
        self.named(s, e, what + ' of ' + ast.unparse(e), line)

    def writing(self, s, call, what, top, line, target=None):
        ctx = self.ctx
        e = target if target is not None else call.args[0] if call.args else None
        o = self.origin(s.mod, s.func, e) if e is not None else None
        if o and o[0] in ('open', 'memory'):
            return ctx.holds('%s %s' % (what, line))
        kinds = self.kind(top) if top else set()
        if o is None:
            return ctx.undecided(what, 'target not resolved')
        if 'r' in kinds:
            return ctx.violated('reading function writes a file', what, line)
        if not kinds:
            return ctx.violated('file written by a function that does not write files', what, line)
        self.written.add(top)
        self.named(s, e, what, line)

    def listing(self, s, call, what, top, line):
        ctx = self.ctx
        ctx.count('directory listings')
        allowed = top is not None and any(f in self.callers(top) for f in self.names[LISTER])
        if not allowed:
            return ctx.violated('directory listed', what, line)
        if s.path not in ('glob.glob', 'glob.iglob') or not call.args:
            return ctx.undecided(what, 'files selected in another way')
        for k in call.keywords:
            if k.arg == 'recursive' and not (isinstance(k.value, ast.Constant) and not k.value.value):
                return ctx.violated('files outside the directory are read', what, '%s: subdirectories are listed as well' % line)
            if k.arg in ('root_dir', 'dir_fd'):
                return ctx.undecided(what, 'files selected relative to %s' % k.arg)
        t = self.pattern(s.mod, s.func, call.args[0])
        if t is None:
            return ctx.undecided(what, 'pattern not resolved')
        if len(t) < 2 or t[0] is not None or any(x is None for x in t[1:]):
            return ctx.violated('files outside the directory are read', what, '%s: pattern %s' % (line, shown(t)))
        rest = ''.join(t[1:])
        if not rest.startswith('/'):
            return ctx.violated('files outside the directory are read', what,
                                '%s: pattern %s also matches files beside the directory' % (line, shown(t)))
        rest = rest.lstrip('/')
        if '/' in rest:
            return ctx.violated('files outside the directory are read', what, '%s: pattern %s' % (line, shown(t)))
        if rest != '*.txt':
            return ctx.violated('other files than the text files are read', what, '%s: pattern %s' % (line, shown(t)))
        ctx.holds(what)

    def pattern(self, mod, func, e, depth=0):
        """text as a list of constants and None for the directory parameter"""
        P = self.P
        if depth > 8:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if isinstance(e, ast.Name):
            g = func
            while g is not None:
                w = P.local_names(g).get(e.id)
                if w is not None:
                    if w[0] == 'param':
                        if any(g is x for x in self.names[LISTER]):
                            return [None]
                        o = self.called(g, e.id, 0)
                        return [None] if o and o[0] == 'param' else None
                    if w[0] == '=':
                        return self.pattern(mod, g, w[1], depth + 1)
                    return None
                g = g.parent
            return None
        if isinstance(e, ast.Call):
            p = P.resolve(mod, func, e.func)
            if p in SAMEPATH or p == 'glob.escape':
                return self.pattern(mod, func, e.args[0], depth + 1) if len(e.args) == 1 else None
            if p == 'os.path.join':
                out = []
                for k, a in enumerate(e.args):
                    t = self.pattern(mod, func, a, depth + 1)
                    if t is None:
                        return None
                    out += (['/'] if k else []) + t
                return out
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and not e.keywords:
                return self.fill(mod, func, e.func.value.value.replace('{0}', '{}'), '{}', e.args, depth)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return self.fill(mod, func, e.left.value, '%s', e.right.elts if isinstance(e.right, ast.Tuple) else [e.right], depth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.pattern(mod, func, e.left, depth + 1), self.pattern(mod, func, e.right, depth + 1)
            return a + b if a is not None and b is not None else None
        if isinstance(e, ast.JoinedStr):
            out = []
            for v in e.values:
                t = self.pattern(mod, func, v.value if isinstance(v, ast.FormattedValue) else v, depth + 1)
                if t is None:
                    return None
                out += t
            return out
        return None

    def fill(self, mod, func, text, mark, args, depth):
        parts = text.split(mark)
        if len(parts) != len(args) + 1 or any('%' in p or '{' in p for p in parts):
            return None
        out = [parts[0]] if parts[0] else []
        for p, a in zip(parts[1:], args):
            t = self.pattern(mod, func, a, depth + 1)
            if t is None:
                return None
            out += t + ([p] if p else [])
        return out

    # -- use of file objects ------------------------------------------------------------

    def use(self, f):
        """a file object is not needed after its block"""
        for n in ast.walk(f.node):
            if isinstance(n, ast.With):
                for it in n.items:
                    if isinstance(it.context_expr, ast.Call) and isinstance(it.optional_vars, ast.Name) \
                            and self.P.resolve(f.mod, f, it.context_expr.func) in OPEN:
                        self.ctx.count('with blocks')


def shown(t):
    return ''.join('<directory>' if x is None else x for x in t)
