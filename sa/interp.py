"""Abstract interpreter for the analysed package.

Executes function bodies over abstract values (values.py): straight-line code by
evaluating expressions to terms, branches by evaluating both sides on copies of the state
and merging them into choice terms, loops over constant sequences by repetition, other loops by
summaries (loops.py).  Library calls are answered by models (lib.py, libpd.py).
"""
import ast
import os

from .values import *


class Dead(Exception):
    """the current path cannot continue (exception raised on it)"""

    def __init__(self, why=''):
        self.why = why


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ('frames', 'heap', 'guard')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.guard = ()

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.guard = self.guard
        return s

    def become(self, o):
        self.frames = o.frames
        self.heap = o.heap
        self.guard = o.guard


class Out(object):
    """outcome of a statement list"""

    __slots__ = ('st', 'rets', 'brks', 'conts')

    def __init__(self, st=None):
        self.st = st
        self.rets = []
        self.brks = []
        self.conts = []


class Event(object):
    __slots__ = ('kind', 'data', 'guard', 'where', 'stack', 'state')

    def __init__(self, kind, data, guard, where, stack, state=None):
        self.state = state
        self.kind = kind
        self.data = data
        self.guard = guard
        self.where = where
        self.stack = stack

    def __repr__(self):
        return 'Event(%s, %r at %s)' % (self.kind, self.data, self.where)


MAXDEPTH = 40

# events on which the path ends with an exception, and its class
RAISING = {'raise': None, 'undefined': 'NameError', 'maybeundefined': 'NameError', 'noattr': 'AttributeError', 'nokey': 'KeyError',
           'badcall': 'TypeError', 'noimport': 'ImportError'}


class Interp(object):
    def __init__(self, repo='/repo', package='melodist'):
        from . import lib, libpd, loops
        self.repo = repo
        self.package = package
        self.mods = {}
        self.asts = {}
        self.nextid = [0]
        self.uid = 0
        self.st = State()
        self.events = []
        self.assumes = []
        self.undecided = []
        self.stack = []
        self.covered = set()
        self.api = {}
        self.overrides = {}
        self.files = None
        self.jsons = []       # known files: name -> File or Written
        self.trydepth = 0
        self.touched = []     # heap objects changed in place: (id, what, where)
        self.ixof = {}        # heap object -> identity of its index
        self.views = {}       # small array -> (array it is a view of, alternatives of positions)
        self.viewed = {}
        self.facts = {}       # what is assumed about the labels of input data
        self.loopdepth = 0
        self.lib = lib.Lib_(self)
        self.pd = libpd.Pandas(self)
        self.loops = loops.Loops(self)
        self.recording = None
        self.curnode = None
        self.curfile = None

    # -- infrastructure ------------------------------------------------------

    def fresh(self, prefix):
        self.uid += 1
        return '%s%d' % (prefix, self.uid)

    def alloc(self, obj):
        self.nextid[0] += 1
        i = self.nextid[0]
        self.st.heap[i] = obj
        return Ref(i)

    def deref(self, v):
        if isinstance(v, Ref):
            o = self.st.heap[v.id]
            while isinstance(o, AltH):
                k = self.known(o.c)
                if k is None:
                    break
                o = o.a if k else o.b
            return o
        return v

    def store(self, ref, obj):
        self.st.heap[ref.id] = obj

    def touch(self, ref, what):
        n = ref.id
        while n is not None:
            self.touched.append((n, what, self.where()))
            n = self.views[n][0] if n in self.views else None

    def token(self, ref):
        """identity of the index of a series or frame; some operations share it"""
        return self.ixof.get(ref.id, ref.id)

    def where(self, node=None):
        node = node or self.curnode
        return '%s:%s' % (self.curfile, getattr(node, 'lineno', '?'))

    def event(self, kind, data, guard=None):
        keep = self.st.fork() if self.trydepth and kind in RAISING else None
        self.events.append(Event(kind, data, self.st.guard if guard is None else guard, self.where(), tuple(f.qual for f in self.stack), keep))

    def unsup(self, why):
        why = '%s at %s' % (why, self.where())
        if why not in self.undecided:
            self.undecided.append(why)
        return Opq(why)

    # -- modules ---------------------------------------------------------------

    def modpath(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            p = os.path.join(p, '__init__.py')
            return p if os.path.exists(p) else None
        p += '.py'
        return p if os.path.exists(p) else None

    def parse(self, name):
        if name not in self.asts:
            p = self.modpath(name)
            if p is None:
                return None
            with open(p, encoding='utf-8') as f:
                src = f.read()
            self.asts[name] = ast.parse(src, p)
        return self.asts[name]

    def import_module(self, name):
        """returns the module value; runs the body the first time"""
        if name.split('.')[0] != self.package:
            return Ext(name)
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        tree = self.parse(name)
        if tree is None:
            return None
        fid = 'mod:' + name
        if fid not in self.st.frames:
            self.st.frames[fid] = {}
        m = ModV(name, fid)
        self.mods[name] = m
        fr = self.st.frames[fid]
        fr['__name__'] = S(string(name), 'str')
        oldfile, oldnode = self.curfile, self.curnode
        self.curfile = os.path.relpath(self.modpath(name), self.repo)
        frame = Frame(fid, self, m, None)
        o = self.exec_block(tree.body, frame)
        self.curfile, self.curnode = oldfile, oldnode
        if '.' in name:
            self.st.frames['mod:' + name.rsplit('.', 1)[0]][name.rsplit('.', 1)[1]] = m
        return m

    def function(self, mod, qual):
        """value of a (possibly dotted) name in a module"""
        m = self.import_module(mod)
        v = m
        for part in qual.split('.'):
            if isinstance(v, ModV):
                v = self.st.frames[v.env].get(part)
            elif isinstance(v, ClsV):
                v = v.lookup(part)
            else:
                return None
        return v

    # -- calling ----------------------------------------------------------------

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Alt):
            return self.split(f.c, lambda: self.call(f.a, args, kwargs, node), lambda: self.call(f.b, args, kwargs, node))
        if isinstance(f, FnV):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.lib.call_ext(f.path, args, kwargs)
        if isinstance(f, Meth):
            return self.lib.call_method(f.recv, f.name, args, kwargs)
        if isinstance(f, Opq):
            return Opq(f.why)
        if isinstance(f, Ref) and isinstance(self.deref(f), Obj):
            m = self.deref(f).cls.lookup('__call__')
            if m is not None:
                return self.call_fn(m.bind(f), args, kwargs)
        if isinstance(f, Lib) and f.kind == 'partial':
            return self.call(f.f, list(f.args) + list(args), dict(f.kwargs, **kwargs), node)
        return self.unsup('call of %r' % (f,))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        args = list(args)
        if f.self_ is not None:
            args = [f.self_] + args
        pos = list(a.posonlyargs) + list(a.args)
        names = [p.arg for p in pos]
        env = {}
        star = None
        if len(args) > len(names):
            if a.vararg:
                star = args[len(names):]
                args = args[:len(names)]
            else:
                raise BadCall('%s() takes %d positional arguments but %d were given' % (f.qual, len(names), len(args)))
        for n, v in zip(names, args):
            env[n] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in env:
                    raise BadCall('%s() got multiple values for argument %r' % (f.qual, k))
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise BadCall('%s() got an unexpected keyword argument %r' % (f.qual, k))
        defaults = f.defaults or {}
        for n in names + kwonly:
            if n not in env:
                if n in defaults:
                    env[n] = defaults[n]
                else:
                    raise BadCall('%s() missing argument %r' % (f.qual, n))
        if a.vararg:
            env[a.vararg.arg] = Tup(star or [])
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(Dct(tuple(extra.items())))
        return env

    def fileof(self, mod):
        if hasattr(mod, 'file'):
            return mod.file
        p = self.modpath(mod.name)
        return os.path.relpath(p, self.repo) if p else mod.name

    def call_fn(self, f, args, kwargs):
        if len(self.stack) > MAXDEPTH:
            return self.unsup('recursion too deep in %s' % f.qual)
        ov = self.overrides.get(f.qual)
        if ov is not None:
            return ov(self, f, args, kwargs)
        self.event('enter', (f.qual, tuple(args), tuple(kwargs.items())))
        try:
            env = self.bind_args(f, args, kwargs)
        except BadCall as e:
            self.event('badcall', str(e))
            raise Dead(str(e))
        if isinstance(f.node, ast.Lambda):
            body = None
        else:
            body = f.node.body
        self.uid += 1
        fid = 'f%d' % self.uid
        self.st.frames[fid] = env
        frame = Frame(fid, self, f.mod, f)
        saved = (self.curfile, self.curnode)
        self.curfile = self.fileof(f.mod)
        self.stack.append(f)
        base = self.st.guard
        try:
            if body is None:
                r = self.eval(f.node.body, frame)
            elif is_generator(f.node):
                r = self.gen_call(f, frame)
            else:
                o = self.exec_block(body, frame)
                outs = list(o.rets)
                if o.st is not None:
                    outs.append((o.st.guard, S(NONE, 'none'), o.st))
                if not outs:
                    raise Dead('all paths of %s raise' % f.qual)
                r = self.merge_outs(outs, base)
        finally:
            self.stack.pop()
            self.curfile, self.curnode = saved
        return r

    def gen_call(self, f, frame):
        """generator functions: collect the yielded values eagerly"""
        self.uid += 1
        lst = self.alloc(Lst(()))
        self.st.frames[frame.fid]['$yield'] = lst
        o = self.exec_block(f.node.body, frame)
        outs = [(g_, S(NONE, 'none'), s) for g_, v, s in o.rets]
        if o.st is not None:
            outs.append((o.st.guard, S(NONE, 'none'), o.st))
        if not outs:
            raise Dead('all paths of %s raise' % f.qual)
        self.merge_outs(outs, frame.base if hasattr(frame, 'base') else ())
        return lst

    def merge_outs(self, outs, base):
        """combine mutually exclusive outcomes (guard, value, state) into self.st"""
        gd, val, st = outs[-1]
        n = self.common(outs)
        base = outs[0][0][:n]
        for g2, v2, s2 in reversed(outs[:-1]):
            c = gcond(g2[n:])
            val, st = self.merge_pair(c, (v2, s2), (val, st))
        st.guard = base
        conds = [gcond(o[0][n:]) for o in outs]
        c = lor(*conds)
        if c is not TRUE and not complete(conds):
            st.guard = base + (c,)
        self.st.become(st)
        return val

    def merge_pair(self, c, a, b):
        (v1, s1), (v2, s2) = a, b
        st = self.merge_states(c, s1, s2)
        v = self.merge_vals(c, v1, v2, s1, s2, st)
        return v, st

    def merge_states(self, c, s1, s2):
        st = State()
        st.guard = s1.guard
        for fid in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                st.frames[fid] = dict(f1 or f2 or {})
                continue
            if f1 == f2 and all(f1[k] is f2[k] for k in f1):
                st.frames[fid] = dict(f1)
                continue
        st.heap = {}
        h1, h2 = s1.heap, s2.heap
        for i in set(h1) | set(h2):
            a, b = h1.get(i), h2.get(i)
            if a is None or b is None or a is b:
                st.heap[i] = a if a is not None else b
        todo = [i for i in set(h1) & set(h2) if h1[i] is not h2[i]]
        for i in sorted(todo):
            st.heap[i] = self.merge_heap(c, h1[i], h2[i], s1, s2, st)
        for fid in set(s1.frames) & set(s2.frames):
            if fid in st.frames:
                continue
            f1, f2 = s1.frames[fid], s2.frames[fid]
            out = {}
            for k in list(f1) + [k for k in f2 if k not in f1]:
                x = f1.get(k, Undef(k))
                y = f2.get(k, Undef(k))
                out[k] = x if x is y else self.merge_vals(c, x, y, s1, s2, st)
            st.frames[fid] = out
        return st

    def merge_vals(self, c, x, y, s1, s2, st):
        if x is y:
            return x
        if isinstance(x, Undef) and isinstance(y, Undef):
            return x
        if isinstance(x, Undef) or isinstance(y, Undef):
            u, v = (x, y) if isinstance(x, Undef) else (y, x)
            if isinstance(v, S):
                ut = S(sym('undefined:' + u.name), None)
                return S(g(c, ut.t, v.t) if u is x else g(c, v.t, ut.t), v.k)
            return Alt(c, x, y)
        if isinstance(x, S) and isinstance(y, S):
            return S(g(c, x.t, y.t), x.k if x.k == y.k else None)
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.id == y.id:
                return x
            a, b = s1.heap.get(x.id), s2.heap.get(y.id)
            # distinct objects: merge into a new one when neither is shared input
            if a is not None and b is not None and not getattr(a, 'origin', None) and not getattr(b, 'origin', None):
                m = self.merge_heap(c, a, b, s1, s2, st, soft=True)
                if m is not None:
                    self.nextid[0] += 1
                    i = self.nextid[0]
                    st.heap[i] = m
                    return Ref(i)
            return Alt(c, x, y)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.merge_vals(c, p, q, s1, s2, st) for p, q in zip(x.items, y.items)])
        if isinstance(x, Opq):
            return x
        if isinstance(y, Opq):
            return y
        return Alt(c, x, y)

    def merge_heap(self, c, a, b, s1, s2, st, soft=False):
        if type(a) is type(b):
            if isinstance(a, Ser) and a.axis is b.axis and a.kind == b.kind:
                return a.with_(t=g(c, a.t, b.t))
            if isinstance(a, Frm) and a.axis is b.axis and a.open == b.open:
                n1 = [n for n, t in a.cols]
                n2 = [n for n, t in b.cols]
                if set(n1) == set(n2):
                    return a.with_(cols=tuple((n, g(c, a.get(n), b.get(n))) for n in n1))
                if a.open is None and not soft:
                    names = n1 + [n for n in n2 if n not in n1]
                    return a.with_(cols=tuple(
                        (n, g(c, a.get(n) if n in n1 else mk('app', 'nocol', n), b.get(n) if n in n2 else mk('app', 'nocol', n)))
                        for n in names))
            if isinstance(a, Frm) and not soft and a.open is None and b.open is None and 'empty' in (a.axis.args[0], b.axis.args[0]):
                # a frame without rows so far takes the index of its first column
                big, small, bc = (a, b, c) if b.axis.args[0] == 'empty' else (b, a, lnot(c))
                if not small.cols:
                    return big.with_(cols=tuple((n, g(bc, t, mk('app', 'nocol', n))) for n, t in big.cols))
            if isinstance(a, Tab) and a.rows is b.rows and a.cols is b.cols:
                return a.with_(t=g(c, a.t, b.t))
            if isinstance(a, Idx):
                if a.axis is b.axis:
                    return a
                m = self.merge_axis(c, a.axis, b.axis)
                if m is not None:
                    return a.with_(axis=m)
            if isinstance(a, Arr) and a.shape == b.shape:
                return a.with_(cells=[g(c, x, y) for x, y in zip(a.cells, b.cells)])
            if isinstance(a, Lst) and len(a.items) == len(b.items):
                return a.with_(items=[self.merge_vals(c, x, y, s1, s2, st) for x, y in zip(a.items, b.items)])
            if isinstance(a, Dct) and [k for k, v in a.items] == [k for k, v in b.items] and a.open == b.open:
                return a.with_(items=[(k, self.merge_vals(c, v, b.get(k), s1, s2, st)) for k, v in a.items])
            if isinstance(a, Obj) and a.cls is b.cls:
                names = [k for k, v in a.fields] + [k for k, v in b.fields if a.get(k) is None]
                return a.with_(fields=tuple(
                    (k, self.merge_vals(c, a.get(k) or Undef(k), b.get(k) or Undef(k), s1, s2, st)) for k in names))
        if soft:
            return None
        return AltH(c, a, b)

    def merge_axis(self, c, a, b):
        """axis of an index that is a under c and b otherwise: both are equal when the days have no gaps"""
        from .axes import samecond
        full = {'hourlyfill': 'hourly', 'gridfill': 'grid', 'span': None}
        for x, y, cond in ((a, b, lnot(c)), (b, a, c)):
            # y: with the gaps filled, used under cond
            k = y.args[0]
            if k not in full:
                continue
            if full[k] is None:
                if y.args[1] is not x:
                    continue
            elif not (x.args[0] == full[k] and x.args[1:] == y.args[1:]):
                continue
            base = y.args[1]
            if samecond(land(cond, cmp('gt', app('gap', base), ZERO)), FALSE):
                return x
        if a.args[0] in full or b.args[0] in full:
            return mk('ax', 'alt', c, a, b)
        return None

    def split(self, c, fa, fb):
        """evaluate fa under c and fb under not c, merge values and states"""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        kn = self.known(c)
        if kn is True:
            return fa()
        if kn is False:
            return fb()
        base = self.st.guard
        s0 = self.st
        s1 = s0.fork()
        s1.guard = base + (c,)
        s2 = s0.fork()
        s2.guard = base + (lnot(c),)
        r1 = r2 = None
        d1 = d2 = False
        self.st = s1
        try:
            r1 = fa()
        except Dead:
            d1 = True
        s1 = self.st
        self.st = s2
        try:
            r2 = fb()
        except Dead:
            d2 = True
        s2 = self.st
        self.st = s0
        if d1 and d2:
            raise Dead('both sides')
        if d1:
            s2.guard = asm_at(s2.guard, len(base))
            s0.become(s2)
            return r2
        if d2:
            s1.guard = asm_at(s1.guard, len(base))
            s0.become(s1)
            return r1
        v, st = self.merge_pair(c, (r1, s1), (r2, s2))
        st.guard = base
        s0.become(st)
        return v

    def known(self, c):
        """truth of c under the path condition, cheap syntactic test"""
        gs = [x.args[0] if x.op == 'asm' else x for x in self.st.guard]
        if c in gs:
            return True
        nc = lnot(c)
        if nc in gs:
            return False
        for x in gs:
            if x.op == 'and':
                if c in x.args:
                    return True
                if nc in x.args:
                    return False
        if c.op == 'and':
            vals = [self.known(x) for x in c.args]
            if any(v is False for v in vals):
                return False
            if all(v is True for v in vals):
                return True
        if c.op == 'or':
            vals = [self.known(x) for x in c.args]
            if any(v is True for v in vals):
                return True
            if all(v is False for v in vals):
                return False
        return None

    def instantiate(self, cls, args, kwargs):
        ext = cls.ext_bases()
        if 'dict' in ext or 'builtins.dict' in ext:
            ref = self.alloc(Dct((), cls=cls))
        elif any(b.startswith('enum.') for b in ext):
            return self.unsup('enum call')
        else:
            ref = self.alloc(Obj(cls, ()))
        init = cls.lookup('__init__')
        if init is not None:
            self.call_fn(init.bind(ref), args, kwargs)
        elif 'dict' in ext:
            self.lib.call_ext('dict.__init__', [ref] + list(args), kwargs)
        elif self.is_dataclass(cls):
            self.dataclass_init(cls, ref, args, kwargs)
        elif args or kwargs:
            if not ext or ext == ['object']:
                self.event('badcall', '%s() takes no arguments' % cls.name)
                raise Dead('no init')
        return ref

    def is_dataclass(self, cls):
        return getattr(cls, 'dataclass', False)

    def dataclass_init(self, cls, ref, args, kwargs):
        names = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)]
        vals = dict(zip(names, args))
        vals.update(kwargs)
        o = self.deref(ref)
        for n in names:
            v = vals.get(n, cls.attrs.get(n))
            o = o.set(n, v)
        self.store(ref, o)

    # -- statements ----------------------------------------------------------

    def exec_block(self, stmts, fr):
        out = Out()
        for i, s in enumerate(stmts):
            self.curnode = s
            self.covered.add((self.curfile, s.lineno))
            try:
                o = self.exec_stmt(s, fr)
            except Dead:
                o = Out(None)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            if o.st is None:
                return out
            self.st.become(o.st) if o.st is not self.st else None
        out.st = self.st
        return out

    def exec_stmt(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unsup('statement %s' % type(s).__name__)
            return Out(self.st)
        r = m(s, fr)
        if isinstance(r, Out):
            return r
        return Out(self.st)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        for n in s.names:
            fr.globals.add(n)
        if fr.fn is not None:
            self.event('global', tuple(s.names))

    def x_Nonlocal(self, s, fr):
        for n in s.names:
            fr.nonlocals.add(n)

    def x_Import(self, s, fr):
        for a in s.names:
            try:
                m = self.import_module(a.name)
            except RecursionError:
                raise
            if m is None:
                self.event('noimport', a.name)
                raise Dead('no module ' + a.name)
            if a.asname:
                self.setname(fr, a.asname, m)
            else:
                top = a.name.split('.')[0]
                if top == self.package:
                    self.setname(fr, top, self.mods[top])
                else:
                    self.setname(fr, top, Ext(top))

    def x_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            pkg = fr.mod.name
            p = self.modpath(pkg)
            parts = pkg.split('.')
            if not p.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        m = self.import_module(base)
        if m is None:
            self.event('noimport', base)
            raise Dead('no module ' + base)
        for a in s.names:
            if isinstance(m, Ext):
                if a.name == '*':
                    self.unsup('star import from library')
                    continue
                self.note_api('module', m.path, a.name)
                self.setname(fr, a.asname or a.name, self.lib.ext_attr(m.path, a.name))
                continue
            env = self.st.frames[m.env]
            if a.name == '*':
                al = env.get('__all__')
                if al is not None and isinstance(self.deref(al), (Lst, Tup)):
                    names = [x.t.args[0] for x in self.deref(al).items]
                else:
                    names = [n for n in env if not n.startswith('_')]
                for n in names:
                    self.setname(fr, n, env[n])
                continue
            v = env.get(a.name)
            if v is None:
                v = self.import_module(base + '.' + a.name)
            if v is None:
                self.event('noimport', base + '.' + a.name)
                raise Dead('cannot import name')
            self.setname(fr, a.asname or a.name, v)

    def x_FunctionDef(self, s, fr):
        f = self.make_fn(s, fr, s.name)
        deco = s.decorator_list
        v = f
        for d in reversed(deco):
            v = self.decorate(d, v, fr)
        self.setname(fr, s.name, v)

    def decorate(self, d, f, fr):
        if isinstance(d, ast.Name) and d.id in ('property', 'classmethod', 'staticmethod'):
            f.kind = d.id
            return f
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            prop = self.eval(d.value, fr)
            if isinstance(prop, FnV) and prop.kind == 'property' and d.attr == 'setter':
                p = FnV(prop.node, prop.mod, prop.frame, prop.name, prop.cls, prop.self_, 'property', prop.defaults, prop.qual)
                p.setter = f
                f.qual = f.qual + '.setter'
                return p
            return f
        dv = self.eval(d, fr)
        if isinstance(dv, Ext) and dv.path in ('functools.wraps',):
            return f
        if isinstance(dv, Lib) and dv.kind == 'identity':
            return f
        if isinstance(dv, Ext) and dv.path in ('functools.lru_cache', 'functools.cache'):
            return f
        return self.call(dv, [f], {})

    def make_fn(self, s, fr, name):
        a = s.args
        defaults = {}
        pos = list(a.posonlyargs) + list(a.args)
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = self.eval(d, fr)
            if isinstance(defaults[p.arg], Ref):
                self.mark_default(defaults[p.arg], name, p.arg)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = self.eval(d, fr)
        cls = fr.clsname
        qual = (fr.qualprefix + '.' if fr.qualprefix else '') + name
        f = FnV(s, fr.mod, fr, name, cls=cls, defaults=defaults, qual=qual)
        return f

    def mark_default(self, ref, name, arg):
        o = self.deref(ref)
        if hasattr(o, 'origin') and o.origin is None:
            self.store(ref, o.with_(origin=('default', name, arg)))

    def x_AsyncFunctionDef(self, s, fr):
        self.unsup('async function')

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        self.uid += 1
        fid = 'cls%d' % self.uid
        self.st.frames[fid] = {}
        cfr = Frame(fid, self, fr.mod, fr.fn, parent=fr, isclass=True)
        cfr.clsname = s.name
        cfr.qualprefix = s.name
        self.exec_block(s.body, cfr)
        cls = ClsV(s.name, s, fr.mod, self.st.frames[fid], bases)
        for d in s.decorator_list:
            if 'dataclass' in ast.dump(d):
                cls.dataclass = True
            else:
                self.unsup('class decorator')
        for v in cls.attrs.values():
            if isinstance(v, FnV):
                v.clsv = cls
                if v.setter:
                    v.setter.clsv = cls
        self.setname(fr, s.name, cls)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        self.lib.augassign(s, fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                self.lib.delitem(b, k)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, fr)
                self.lib.delattr(b, t.attr)

    def x_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else S(NONE, 'none')
        o = Out(None)
        o.rets.append((self.st.guard, v, self.snap()))
        return o

    def snap(self):
        st = self.st
        n = State()
        n.frames, n.heap, n.guard = st.frames, st.heap, st.guard
        return n

    def x_Break(self, s, fr):
        o = Out(None)
        o.brks.append((self.st.guard, None, self.snap()))
        return o

    def x_Continue(self, s, fr):
        o = Out(None)
        o.conts.append((self.st.guard, None, self.snap()))
        return o

    def x_Raise(self, s, fr):
        name = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a, fr)
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
                self.eval(e, fr)
            elif isinstance(e, ast.Attribute):
                name = e.attr
        self.event('raise', name)
        raise Dead('raise')

    def x_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if c is FALSE or self.known(c) is False:
            self.event('raise', 'AssertionError')
            raise Dead('assert')
        if s.msg is not None and c is not TRUE:
            # evaluated only on failure
            pass
        if c is not TRUE:
            self.event('raise', 'AssertionError', self.st.guard + (lnot(c),))
            self.assume(c)

    def assume(self, c):
        self.assumes.append((self.st.guard, c))
        self.st.guard = self.st.guard + (mk('asm', c),)

    def x_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if c is not TRUE and c is not FALSE:
            k = self.known(c)
            if k is not None:
                c = boolean(k)
        if c is TRUE:
            return self.exec_block(s.body, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, fr)
        self.event('branch', c)
        return self.fork_exec(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr))

    def fork_exec(self, c, fa, fb):
        base = self.st.guard
        s0 = self.st
        s1 = s0.fork()
        s1.guard = base + (c,)
        s2 = s0.fork()
        s2.guard = base + (lnot(c),)
        self.st = s1
        try:
            o1 = fa()
        except Dead:
            o1 = Out(None)
        self.st = s2
        try:
            o2 = fb()
        except Dead:
            o2 = Out(None)
        self.st = s0
        out = Out()
        out.rets = o1.rets + o2.rets
        out.brks = o1.brks + o2.brks
        out.conts = o1.conts + o2.conts
        if o1.st is not None and o2.st is not None:
            n = len(base)
            r1 = gcond(o1.st.guard[n:])
            r2 = gcond(o2.st.guard[n:])
            st = self.merge_states(c, o1.st, o2.st)
            rest = lor(r1, r2)
            plain = r1 is c and r2 is lnot(c)
            st.guard = base if plain or rest is TRUE or complete([r1, r2]) else base + (rest,)
            s0.become(st)
            out.st = s0
        elif o1.st is not None:
            if not (o2.rets or o2.brks or o2.conts):
                o1.st.guard = asm_at(o1.st.guard, len(base))
            s0.become(o1.st)
            out.st = s0
        elif o2.st is not None:
            if not (o1.rets or o1.brks or o1.conts):
                o2.st.guard = asm_at(o2.st.guard, len(base))
            s0.become(o2.st)
            out.st = s0
        else:
            d1 = not (o1.rets or o1.brks or o1.conts)
            d2 = not (o2.rets or o2.brks or o2.conts)
            if d1 != d2:
                for lst in (out.rets, out.brks, out.conts):
                    for i, (gd, v, s) in enumerate(lst):
                        s.guard = asm_at(s.guard, len(base))
                        lst[i] = (asm_at(gd, len(base)), v, s)
        return out

    def x_Match(self, s, fr):
        subj = self.eval(s.subject, fr)

        def run(cases):
            if not cases:
                return Out(self.st)
            cs = cases[0]
            c = self.match_pattern(cs.pattern, subj, fr)
            if cs.guard is not None and c is not FALSE:
                c = land(c, self.truth(self.eval(cs.guard, fr)))
            if c is TRUE:
                return self.exec_block(cs.body, fr)
            if c is FALSE:
                return run(cases[1:])
            return self.fork_exec(c, lambda: self.exec_block(cs.body, fr), lambda: run(cases[1:]))
        return run(s.cases)

    def match_pattern(self, p, subj, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.lib.compare('eq', subj, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.lib.compare('is', subj, self.const(p.value)))
        if isinstance(p, ast.MatchOr):
            return lor(*[self.match_pattern(q, subj, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(fr, p.name, subj)
                return TRUE
            c = self.match_pattern(p.pattern, subj, fr)
            if p.name:
                self.setname(fr, p.name, subj)
            return c
        self.unsup('match pattern')
        return opq('pattern')

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        known = self.lib.file_items(it)
        if known is not None:
            return self.unrolled(s, known[0], fr, known[1])
        items = self.lib.iterate(it)
        if items is not None:
            return self.unrolled(s, items, fr)
        return self.loops.symbolic_for(s, it, fr)

    def unrolled(self, s, items, fr, more=False):
        out = Out()
        brks = []
        base = self.st.guard
        for v in items:
            self.assign(s.target, v, fr)
            o = self.exec_block(s.body, fr)
            out.rets += o.rets
            brks += o.brks
            outs = list(o.conts)
            if o.st is not None:
                outs.append((o.st.guard, None, o.st if o.st is not self.st else self.snap()))
            if not outs:
                if brks:
                    self.merge_outs(brks, base)
                    out.st = self.st
                return out
            if len(outs) > 1:
                n = self.common(outs)
                self.merge_outs(outs, outs[0][0][:n])
            else:
                self.st.become(outs[0][2])
            if len(brks) > 64:
                self.unsup('too many exits from a loop')
                break
        if more:
            self.unsup('loop over the records of a file')
        if s.orelse:
            o = self.exec_block(s.orelse, fr)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            if o.st is None:
                if brks:
                    self.merge_outs(brks, base)
                    out.st = self.st
                return out
        if brks:
            outs = brks + [(self.st.guard, None, self.snap())]
            n = self.common(outs)
            self.merge_outs(outs, outs[0][0][:n])
        out.st = self.st
        return out

    def common(self, outs):
        n = 0
        gs = [o[0] for o in outs]
        while all(len(x) > n for x in gs) and all(x[n] is gs[0][n] for x in gs):
            n += 1
        return n

    def x_While(self, s, fr):
        out = Out()
        brks = []
        base = self.st.guard
        for k in range(300):
            c = self.truth(self.eval(s.test, fr))
            if c is not TRUE and c is not FALSE:
                kn = self.known(c)
                if kn is not None:
                    c = boolean(kn)
            if c is FALSE:
                if brks:
                    outs = brks + [(self.st.guard, None, self.snap())]
                    n = self.common(outs)
                    self.merge_outs(outs, outs[0][0][:n])
                out.st = self.st
                return out
            if c is not TRUE:
                if k == 0 and not brks:
                    r = self.loops.symbolic_while(s, c, fr)
                    if r is not None:
                        return r
                self.unsup('while loop with symbolic condition')
                self.havoc(s.body, fr)
                out.st = self.st
                return out
            o = self.exec_block(s.body, fr)
            out.rets += o.rets
            brks += o.brks
            outs = list(o.conts)
            if o.st is not None:
                outs.append((o.st.guard, None, self.snap()))
            if not outs:
                if brks:
                    self.merge_outs(brks, base)
                    out.st = self.st
                return out
            if len(outs) > 1:
                n = self.common(outs)
                self.merge_outs(outs, outs[0][0][:n])
            else:
                self.st.become(outs[0][2])
        self.unsup('while loop too long')
        out.st = self.st
        return out

    def havoc(self, body, fr):
        for n in assigned_names(body):
            if n in self.st.frames[fr.fid]:
                self.setname(fr, n, Opq('changed in an unmodelled loop at %s' % self.where()))

    def x_Try(self, s, fr):
        self.event('try', None)
        before = self.st.fork()
        nev = len(self.events)
        out = Out()
        self.trydepth += 1
        end = None
        try:
            o = self.exec_block(s.body, fr)
        except Dead:
            o = Out(None)
            end = self.st.fork()
        finally:
            self.trydepth -= 1
        raised = [e for e in self.events[nev:] if e.kind in RAISING]
        if o.st is None and not o.rets and not o.brks and not o.conts and end is not None and not raised:
            raised = [Event('raise', 'Exception', end.guard, self.where(), (), end)]
        caught = set()
        live = self.st
        # each handler runs on the states in which its exceptions were raised, otherwise only for
        # effects and interface use on the state before the block
        for h in s.handlers:
            names = self.handler_names(h)
            mine = [e for e in raised if id(e) not in caught and ('*' in names or (e.data if e.kind == 'raise' else RAISING[e.kind]) in names)]
            caught.update(id(e) for e in mine)
            hguard = None
            self.st = before.fork()
            for e in mine:
                rel = gcond(e.guard[len(before.guard):])
                hguard = rel if hguard is None else lor(hguard, rel)
            if mine and all(e.state is not None for e in mine):
                st = mine[-1].state
                for e in reversed(mine[:-1]):
                    st = self.merge_states(gcond(e.guard[len(before.guard):]), e.state, st)
                self.st = st.fork()
            self.st.guard = before.guard + ((hguard if hguard is not None else boolean_sym('exc:%s' % self.where(h))),)
            if h.name:
                self.setname(fr, h.name, Opq('exception object'))
            try:
                oh = self.exec_block(h.body, fr)
            except Dead:
                oh = Out(None)
            self.st = live
            if hguard is not None:
                for e in mine:
                    e.kind = 'caught'
                out.rets += oh.rets
                out.brks += oh.brks
                out.conts += oh.conts
                if oh.st is not None:
                    if o.st is not None:
                        st = self.merge_states(hguard, oh.st, o.st if o.st is not self.st else self.snap())
                        st.guard = before.guard
                        o.st = st
                    else:
                        o.st = oh.st
        if o.st is not None:
            if o.st is not self.st:
                self.st.become(o.st)
            if s.orelse:
                o2 = self.exec_block(s.orelse, fr)
                o.rets += o2.rets
                o.brks += o2.brks
                o.conts += o2.conts
                o.st = o2.st
        out.rets = o.rets + out.rets
        out.brks = o.brks + out.brks
        out.conts = o.conts + out.conts
        out.st = o.st
        if s.finalbody:
            if out.st is not None:
                if out.st is not self.st:
                    self.st.become(out.st)
                o3 = self.exec_block(s.finalbody, fr)
                out.st = o3.st
            else:
                # run for effects on the returning states
                newr = []
                for gd, v, st in out.rets:
                    live = self.st
                    self.st = st
                    self.exec_block(s.finalbody, fr)
                    newr.append((gd, v, self.snap()))
                    self.st = live
                out.rets = newr
        return out

    def handler_names(self, h):
        if h.type is None:
            return {'*'}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in ts:
            n = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', None)
            if n in ('Exception', 'BaseException'):
                out.add('*')
            out.add(n)
        return out

    def x_With(self, s, fr):
        ctxs = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            ent = self.lib.enter(v)
            ctxs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, fr)
        o = self.exec_block(s.body, fr)
        for v in reversed(ctxs):
            self.lib.exit(v)
        return o

    # -- names and targets -------------------------------------------------------

    def setname(self, fr, n, v):
        if n in fr.globals:
            self.st.frames[fr.mod.env][n] = v
            self.event('setglobal', n)
            return
        if n in fr.nonlocals:
            f = fr.parent_of()
            while f is not None:
                if n in self.st.frames[f.fid]:
                    self.st.frames[f.fid][n] = v
                    return
                f = f.parent_of()
        self.st.frames[fr.fid][n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            items = self.lib.unpack(v, n if not star else None)
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Opq('unpacking of unknown value at %s' % self.where()), fr)
                return
            if star:
                k = star[0]
                after = n - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.alloc(Lst(items[k:len(items) - after])), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != n:
                self.event('badcall', 'cannot unpack %d values into %d names' % (len(items), n))
                raise Dead('unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, fr)
            self.curnode = t
            self.lib.setattr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            self.curnode = t
            self.lib.setitem(b, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.unsup('assignment target')

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if (first or not f.isclass) and name not in f.globals:
                env = self.st.frames.get(f.fid)
                if env is not None and name in env:
                    return env[name]
            first = False
            f = f.parent_of()
        env = self.st.frames[fr.mod.env]
        if name in env:
            return env[name]
        return self.lib.builtin(name)

    # -- expressions -----------------------------------------------------------

    def eval(self, e, fr):
        old = self.curnode
        if hasattr(e, 'lineno'):
            self.curnode = e
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            r = self.unsup('expression %s' % type(e).__name__)
        else:
            r = m(e, fr)
        self.curnode = old
        return r

    def const(self, v):
        if v is None:
            return S(NONE, 'none')
        if v is True or v is False:
            return S(boolean(v), 'bool')
        if isinstance(v, int):
            return S(num(v), 'int')
        if isinstance(v, float):
            return S(num(v), 'float')
        if isinstance(v, str):
            return S(string(v), 'str')
        if v is Ellipsis:
            return Lib('ellipsis')
        if isinstance(v, bytes):
            return S(mk('app', 'bytes', v), 'bytes')
        return self.unsup('constant %r' % (v,))

    def e_Constant(self, e, fr):
        return self.const(e.value)

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if v is None:
            self.event('undefined', e.id)
            raise Dead('name %s' % e.id)
        if isinstance(v, Undef):
            self.event('maybeundefined', e.id)
            raise Dead('name %s' % e.id)
        if isinstance(v, Alt):
            v = self.prune(v)
        return v

    def prune(self, v):
        """drop alternatives excluded by the path condition"""
        while isinstance(v, Alt):
            k = self.known(v.c)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            else:
                if isinstance(v.a, Undef):
                    self.event('maybeundefined', v.a.name)
                    v = v.b
                    continue
                if isinstance(v.b, Undef):
                    self.event('maybeundefined', v.b.name)
                    v = v.a
                    continue
                break
        return v

    def e_Tuple(self, e, fr):
        return Tup(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                items = self.lib.iterate(v)
                if items is None:
                    out.append(self.unsup('starred element'))
                else:
                    out += items
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return self.alloc(Lst(self.elts(e.elts, fr)))

    def e_Set(self, e, fr):
        return Lib('set', items=tuple(self.elts(e.elts, fr)))

    def e_Dict(self, e, fr):
        items = []
        d = Dct(())
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, fr)
            if k is None:
                o = self.deref(vv)
                if isinstance(o, Dct):
                    for kk, x in o.items:
                        d = d.set(kk, x)
                    if o.open:
                        d = d.with_(open=o.open)
                else:
                    self.unsup('dict expansion')
                continue
            kv = self.eval(k, fr)
            key = self.lib.dictkey(kv)
            if key is None:
                self.unsup('dict key')
                continue
            d = d.set(key, vv)
        return self.alloc(d)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(S(string(v.value), 'str'))
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, fr)
                    spec = sp.t.args[0] if isinstance(sp, S) and sp.t.op == 'str' else '?'
                parts.append(self.lib.format_value(x, spec, v.conversion))
        return self.lib.concat_str(parts)

    def e_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.iscomp:
            f = f.parent_of()
        self.setname(f, e.target.id, v)
        return v

    def e_Lambda(self, e, fr):
        f = self.make_fn(e, fr, '<lambda>')
        return f

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        return self.split(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def run(vals):
            v = self.eval(vals[0], fr)
            if len(vals) == 1:
                return v
            c = self.truth(v)
            k = None
            if c is not TRUE and c is not FALSE:
                k = self.known(c)
                if k is not None:
                    c = boolean(k)
            if c is TRUE:
                return run(vals[1:]) if isand else v
            if c is FALSE:
                return v if isand else run(vals[1:])
            if isand:
                r = self.split(c, lambda: run(vals[1:]), lambda: S(FALSE, 'bool'))
                if isinstance(r, S):
                    return r
                return r
            r = self.split(c, lambda: v if not isinstance(v, S) or v.k != 'bool' else S(TRUE, 'bool'), lambda: run(vals[1:]))
            return r
        return run(e.values)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return S(lnot(self.truth(v)), 'bool')
        return self.lib.unary(type(e.op).__name__, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.lib.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            name = {
                'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'Eq': 'eq', 'NotEq': 'ne',
                'Is': 'is', 'IsNot': 'isnot', 'In': 'in', 'NotIn': 'notin',
            }[type(op).__name__]
            v = self.lib.compare(name, left, right)
            if res is None:
                res = v
            else:
                res = S(land(self.truth(res), self.truth(v)), 'bool')
            left = right
        return res

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                items = self.lib.iterate(v)
                if items is None:
                    self.unsup('starred argument')
                    return Opq('starred argument')
                args += items
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                o = self.deref(v)
                if isinstance(o, Dct):
                    for kk, x in o.items:
                        if kk in kwargs:
                            self.event('badcall', 'multiple values for keyword argument %r' % (kk,))
                            raise Dead('kw')
                        kwargs[kk] = x
                    if o.open:
                        kwargs['**' + o.open] = S(sym(o.open, 'obj'))
                else:
                    self.unsup('keyword expansion')
            else:
                kwargs[k.arg] = v
        self.curnode = e
        return self.call(f, args, kwargs, e)

    def e_Attribute(self, e, fr):
        b = self.eval(e.value, fr)
        self.curnode = e
        return self.lib.getattr(b, e.attr)

    def e_Subscript(self, e, fr):
        b = self.eval(e.value, fr)
        k = self.eval(e.slice, fr)
        self.curnode = e
        return self.lib.getitem(b, k)

    def e_Slice(self, e, fr):
        return Lib('slice',
                   lo=self.eval(e.lower, fr) if e.lower is not None else S(NONE),
                   hi=self.eval(e.upper, fr) if e.upper is not None else S(NONE),
                   step=self.eval(e.step, fr) if e.step is not None else S(NONE))

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else S(NONE, 'none')
        lst = self.lookup('$yield', fr)
        if lst is None:
            return self.unsup('yield')
        o = self.deref(lst)
        self.store(lst, o.with_(items=o.items + (v,)))
        return S(NONE, 'none')

    def e_ListComp(self, e, fr):
        return self.loops.comprehension(e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        return self.loops.comprehension(e, fr, 'gen')

    def e_SetComp(self, e, fr):
        return self.loops.comprehension(e, fr, 'set')

    def e_DictComp(self, e, fr):
        return self.loops.comprehension(e, fr, 'dict')

    # -- truth ----------------------------------------------------------------

    def truth(self, v):
        return self.lib.truth(v)

    def note_api(self, kind, owner, attr, call=None):
        key = (kind, owner, attr)
        self.api.setdefault(key, set()).add((self.curfile, getattr(self.curnode, 'lineno', 0), call))


class BadCall(Exception):
    pass


class AltH(object):
    """heap alternative"""

    __slots__ = ('c', 'a', 'b', 'origin')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.origin = None

    def __repr__(self):
        return 'AltH(%r, %r, %r)' % (self.c, self.a, self.b)


class Frame(object):
    def __init__(self, fid, interp, mod, fn, parent=None, isclass=False, iscomp=False):
        self.fid = fid
        self.interp = interp
        self.mod = mod
        self.fn = fn
        self.parent = parent if parent is not None else (fn.frame if fn is not None else None)
        self.isclass = isclass
        self.iscomp = iscomp
        self.globals = set()
        self.nonlocals = set()
        self.clsname = None
        self.qualprefix = (fn.qual + '.<locals>') if fn is not None else ''
        self.base = interp.st.guard

    def parent_of(self):
        return self.parent


def gcond(gs):
    return land(*[x for x in gs if x.op != 'asm'])


def asm_at(guard, n):
    if len(guard) <= n or guard[n].op == 'asm':
        return guard
    return guard[:n] + (mk('asm', guard[n]),) + guard[n + 1:]


def boolean_sym(name):
    return mk('sym', name, ('obj',))


def complete(conds):
    """do the conditions cover everything?  (c or not c patterns, by folding)"""
    conds = [c for c in conds]
    if any(c is TRUE for c in conds):
        return True
    # distribute: remove a common literal pair
    lits = set()
    for c in conds:
        for x in (c.args if c.op == 'and' else (c,)):
            lits.add(x)
    for x in sorted(lits, key=lambda u: u._id):
        n = lnot(x)
        pos, neg = [], []
        ok = True
        for c in conds:
            parts = list(c.args) if c.op == 'and' else [c]
            if x in parts:
                pos.append(land(*[p for p in parts if p is not x]))
            elif n in parts:
                neg.append(land(*[p for p in parts if p is not n]))
            else:
                ok = False
                break
        if ok and pos and neg:
            return complete(pos) and complete(neg)
    return False


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # not inside a nested function
            return True
    return False
