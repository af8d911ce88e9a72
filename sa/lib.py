"""Models of Python built-ins, numpy and small parts of scipy, json, io."""
import ast
from fractions import Fraction

from .values import *
from . import terms as TM
from .axes import conj

EXC = {
    'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'RuntimeError', 'OSError', 'IOError',
    'AssertionError', 'NotImplementedError', 'StopIteration', 'ZeroDivisionError', 'FileNotFoundError', 'NameError',
    'UserWarning', 'DeprecationWarning', 'Warning', 'RuntimeWarning', 'FutureWarning', 'ArithmeticError', 'LookupError',
    'BaseException', 'PermissionError', 'UnboundLocalError', 'ImportError', 'OverflowError', 'KeyboardInterrupt',
}
BUILTINS = {
    'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool', 'abs', 'min', 'max',
    'sum', 'any', 'all', 'sorted', 'reversed', 'isinstance', 'issubclass', 'type', 'print', 'open', 'getattr', 'hasattr',
    'setattr', 'map', 'filter', 'round', 'iter', 'next', 'id', 'callable', 'super', 'object', 'property', 'classmethod',
    'staticmethod', 'divmod', 'pow', 'repr', 'hash', 'vars', 'dir', 'input', 'eval', 'exec', 'compile', 'globals', 'locals',
    'slice', 'frozenset', 'bytes', 'bytearray', 'complex', 'chr', 'ord', 'format', 'delattr', '__import__', 'memoryview',
}
CONSTS = {
    'numpy.pi': S(PI), 'math.pi': S(PI), 'numpy.nan': S(NANT), 'math.nan': S(NANT), 'numpy.NaN': S(NANT),
    'numpy.inf': S(mk('inf', 1)), 'math.inf': S(mk('inf', 1)), 'numpy.newaxis': S(NONE, 'none'),
    'pandas.NaT': S(NANT), 'pandas.NA': S(NANT),
    'numpy.e': S(fn('exp', ONE)), 'math.e': S(fn('exp', ONE)),
}
UFUNC1 = {
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'arcsin', 'arccos': 'arccos', 'arctan': 'arctan', 'exp': 'exp', 'log': 'log',
    'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
    'sqrt': 'sqrt', 'deg2rad': 'deg2rad', 'radians': 'deg2rad', 'rad2deg': 'rad2deg', 'degrees': 'rad2deg', 'abs': 'abs', 'absolute': 'abs',
    'fabs': 'abs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'round', 'log1p': 'log1p', 'expm1': 'expm1',
    'log10': 'log10', 'log2': 'log2', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'sign': 'sign',
}
UFUNC2 = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'mod': 'Mod',
          'remainder': 'Mod', 'floor_divide': 'FloorDiv'}
CMP2 = {'greater': 'gt', 'greater_equal': 'ge', 'less': 'lt', 'less_equal': 'le', 'equal': 'eq', 'not_equal': 'ne'}


def clsname(o):
    """library class of a heap object / value, for interface checks"""
    if isinstance(o, Ser):
        return {'series': 'pandas.Series', 'array': 'numpy.ndarray', 'index': 'pandas.Index', 'list': 'list'}[o.kind]
    if isinstance(o, Idx):
        return 'pandas.DatetimeIndex'
    if isinstance(o, Tab) and o.kind == 'array':
        return 'numpy.ndarray'
    if isinstance(o, (Frm, Tab)):
        return 'pandas.DataFrame'
    if isinstance(o, Arr):
        return 'numpy.ndarray'
    if isinstance(o, Lst):
        return 'list'
    if isinstance(o, Tup):
        return 'tuple'
    if isinstance(o, Dct):
        return 'dict'
    if isinstance(o, S):
        return {'ts': 'pandas.Timestamp', 'td': 'pandas.Timedelta', 'str': 'str', 'date': 'datetime.date',
                'int': 'int', 'float': 'float', 'bool': 'bool', 'none': 'NoneType'}.get(o.k)
    if isinstance(o, Symo):
        return o.kind
    if isinstance(o, Lib):
        return getattr(o, 'cls', None)
    return None


class Shape(Tup):
    __slots__ = ('axis',)

    def __init__(self, items, axis):
        Tup.__init__(self, items)
        self.axis = axis


# library functions that change their first argument
CHANGING = ('numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.put_along_axis',
            'numpy.random.shuffle', 'random.shuffle', 'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'bisect.insort')


class Lib_(object):
    def __init__(self, interp):
        self.i = interp
        self.lenaxis = {}

    # shorthand
    def d(self, v):
        return self.i.deref(v)

    def new(self, o):
        return self.i.alloc(o)

    def num(self, x):
        return S(num(x))

    # -- distribution over alternatives ------------------------------------

    def pick(self, v):
        from .interp import AltH
        if isinstance(v, Alt):
            v = self.i.prune(v)
            if isinstance(v, Alt):
                return v.c
        if isinstance(v, Ref):
            o = self.d(v)
            if isinstance(o, AltH):
                return o.c
        return None

    def dist(self, f, *vals):
        from .interp import AltH
        for k, v in enumerate(vals):
            if isinstance(v, Alt):
                v = self.i.prune(v)
                if isinstance(v, Alt):
                    def go(x, k=k):
                        vs = list(vals)
                        vs[k] = x
                        return self.dist(f, *vs)
                    return self.i.split(v.c, lambda: go(v.a), lambda: go(v.b))
                vals = vals[:k] + (v,) + vals[k + 1:]
            if isinstance(v, Ref):
                o = self.d(v)
                if isinstance(o, AltH):
                    return self.i.split(o.c, lambda: self.dist(f, *vals), lambda: self.dist(f, *vals))
        return f(*vals)

    # -- names ----------------------------------------------------------------

    def builtin(self, name):
        if name in BUILTINS:
            return Ext(name)
        if name in EXC:
            return Ext(name)
        if name in ('__name__', '__file__'):
            return S(string(name), 'str')
        if name == 'NotImplemented':
            return S(sym('NotImplemented', 'obj'))
        if name == 'Ellipsis':
            return Lib('ellipsis')
        return None

    def ext_attr(self, path, attr):
        p = path + '.' + attr
        if p in CONSTS:
            return CONSTS[p]
        return Ext(p)

    # -- attributes -----------------------------------------------------------

    def getattr(self, v, name):
        return self.dist(lambda x: self.getattr1(x, name), v)

    def getattr1(self, v, name):
        i = self.i
        if isinstance(v, Opq):
            return v
        if isinstance(v, ModV):
            env = i.st.frames[v.env]
            if name in env:
                return env[name]
            m = i.mods.get(v.name + '.' + name)
            if m is not None:
                return m
            i.event('noattr', 'module %s has no attribute %s' % (v.name, name))
            from .interp import Dead
            raise Dead('attr')
        if isinstance(v, Ext):
            i.note_api('module', v.path, name)
            return self.ext_attr(v.path, name)
        if isinstance(v, ClsV):
            if name == '__name__':
                return S(string(v.name), 'str')
            a = v.lookup(name)
            if a is None:
                ext = v.ext_bases()
                if ext and ext != ['object']:
                    return Ext(ext[0] + '.' + name)
                i.event('noattr', 'class %s has no attribute %s' % (v.name, name))
                from .interp import Dead
                raise Dead('attr')
            if isinstance(a, FnV) and a.kind == 'classmethod':
                return a.bind(v)
            return a
        if isinstance(v, FnV):
            if name in ('__name__', '__qualname__'):
                return S(string(v.name), 'str')
            return i.unsup('function attribute')
        o = self.d(v)
        if isinstance(o, Obj):
            return self.obj_getattr(v, o, name)
        if isinstance(o, Dct):
            return self.dct_getattr(v, o, name)
        cn = clsname(o)
        if isinstance(o, (Ser, Idx, Frm, Tab)):
            return i.pd.getattr(v, o, name)
        if isinstance(o, Lib):
            r = self.lib_getattr(o, name)
            if r is not None:
                return r
            if cn:
                i.note_api('method', cn, name)
            return Meth(v, name)
        if isinstance(o, Arr):
            i.note_api('method', 'numpy.ndarray', name)
            if name == 'shape':
                return Tup([S(num(n), 'int') for n in o.shape])
            if name == 'size':
                return S(num(len(o.cells)), 'int')
            if name == 'ndim':
                return S(num(len(o.shape)), 'int')
            if name == 'T':
                r = self.transpose(o)
                if isinstance(v, Ref) and isinstance(r, Ref) and len(o.shape) == 2:
                    m, n = o.shape
                    self.arr_view(r, v, [(TRUE, [q * n + p for p in range(n) for q in range(m)])])
                return r if len(o.shape) > 1 else v
            if name == 'flat':
                return self.new(Arr((len(o.cells),), o.cells))
            return Meth(v, name)
        if isinstance(o, S):
            if o.k == 'ts':
                i.note_api('method', 'pandas.Timestamp', name)
                r = i.pd.ts_attr(o, name)
                return r if r is not None else Meth(v, name)
            if o.k == 'td':
                i.note_api('method', 'pandas.Timedelta', name)
                if name == 'days':
                    return S(fn('floor', div(o.t, num(86400))), 'int')
                if name == 'seconds':
                    return S(fn('mod', fn('floor', o.t), num(86400)), 'int')
                return Meth(v, name)
            if o.k == 'date':
                i.note_api('method', 'datetime.date', name)
                if name in ('year', 'month', 'day'):
                    return S(app('datecomp', name, o.t), 'int')
                return Meth(v, name)
            if o.k == 'none':
                if name not in dir(None):
                    i.event('noattr', 'None has no attribute %s' % name)
                    from .interp import Dead
                    raise Dead('attr of None')
            if o.k == 'str':
                i.note_api('method', 'str', name)
            if o.k in ('float', 'int', 'bool') or (o.k is None and o.t.op in ('add', 'mul', 'pow', 'num', 'fn')):
                if name in ('real',):
                    return o
            return Meth(v, name)
        if isinstance(o, Symo):
            return self.symo_getattr(v, o, name)
        if isinstance(o, (Lst, Tup)):
            i.note_api('method', cn, name)
            return Meth(v, name)
        return Meth(v, name)

    def lib_getattr(self, o, name):
        if o.kind == 'result' and name in o.fields:
            return o.fields[name]
        if o.kind in ('groupby', 'resampler'):
            return self.i.pd.group_getattr(o, name)
        if o.kind == 'super':
            a = None
            for b in o.cls_.bases:
                if isinstance(b, ClsV):
                    a = b.lookup(name)
                    if a:
                        break
            if a is None:
                ob = self.d(o.obj)
                if isinstance(ob, Dct):
                    return Meth(o.obj, 'dict.' + name)
                return Lib('noop')
            return a.bind(o.obj)
        return None

    def symo_getattr(self, v, o, name):
        if o.kind:
            self.i.note_api('method', o.kind, name)
        return Meth(v, name)

    def obj_getattr(self, v, o, name):
        i = self.i
        a = o.cls.lookup(name)
        if isinstance(a, FnV) and a.kind == 'property':
            return i.call_fn(a.bind(v), [], {})
        f = o.get(name)
        if f is not None:
            if isinstance(f, Undef):
                i.event('maybenoattr', '%s.%s' % (o.cls.name, name))
            if isinstance(f, Alt):
                f = i.prune(f)
            return f
        if name == '__dict__':
            return i.alloc(Dct(o.fields, origin=('objdict',)))
        if name == '__class__':
            return o.cls
        if a is not None:
            if isinstance(a, FnV):
                if a.kind == 'classmethod':
                    return a.bind(o.cls)
                if a.kind == 'staticmethod':
                    return a
                return a.bind(v)
            return a
        ga = o.cls.lookup('__getattr__')
        if ga is not None:
            return i.call_fn(ga.bind(v), [S(string(name), 'str')], {})
        i.event('noattr', '%s object has no attribute %s' % (o.cls.name, name))
        from .interp import Dead
        raise Dead('attr')

    def dct_getattr(self, v, o, name):
        i = self.i
        if o.attr:
            x = o.get(name)
            if x is not None:
                return x
        if o.cls is not None:
            a = o.cls.lookup(name)
            if a is not None:
                if isinstance(a, FnV):
                    if a.kind == 'property':
                        return i.call_fn(a.bind(v), [], {})
                    return a.bind(v)
                return a
        if name == '__dict__' and o.attr:
            return v
        if name == '__class__':
            return o.cls or Ext('dict')
        if o.attr and o.open:
            return S(sym('%s.%s' % (o.open, name), 'obj'))
        if o.attr and name not in dir(dict):
            i.event('noattr', 'no entry %s' % name)
            from .interp import Dead
            raise Dead('attr')
        i.note_api('method', 'dict', name)
        return Meth(v, name)

    def setattr(self, b, name, v):
        return self.dist(lambda x: self.setattr1(x, name, v), b)

    def mutate(self, ref, what):
        o = self.d(ref)
        if isinstance(ref, Ref):
            self.i.touch(ref, what)
        og = getattr(o, 'origin', None)
        if og is not None:
            self.i.event('mutate', (og, what))
        else:
            self.i.event('write', what)

    def setattr1(self, b, name, v):
        i = self.i
        if isinstance(b, Opq):
            return
        if isinstance(b, ModV):
            i.event('setglobal', b.name + '.' + name)
            i.st.frames[b.env][name] = v
            return
        if isinstance(b, ClsV):
            i.event('setglobal', b.name + '.' + name)
            b.attrs[name] = v
            return
        if isinstance(b, Ext):
            i.event('setlib', b.path + '.' + name)
            return
        o = self.d(b)
        if isinstance(o, Obj):
            a = o.cls.lookup(name)
            if isinstance(a, FnV) and a.kind == 'property':
                if a.setter is None:
                    i.event('noattr', 'property %s of %s has no setter' % (name, o.cls.name))
                    from .interp import Dead
                    raise Dead('setter')
                i.call_fn(a.setter.bind(b), [v], {})
                return
            self.mutate(b, 'attribute ' + name)
            i.store(b, self.d(b).set(name, v))
            return
        if isinstance(o, Dct):
            if name == '__dict__':
                if isinstance(v, Ref) and isinstance(b, Ref) and v.id == b.id:
                    i.store(b, o.with_(attr=True))
                    return
                i.unsup('__dict__ assignment')
                return
            self.mutate(b, 'entry ' + name)
            if o.attr:
                i.store(b, o.set(name, v))
            else:
                i.unsup('attribute of dict')
            return
        if isinstance(o, (Ser, Idx, Frm, Tab)):
            return i.pd.setattr(b, o, name, v)
        if isinstance(o, Lib) and o.kind in ('columns', 'tabindex'):
            owner = o.tab if o.kind == 'tabindex' else getattr(o, 'owner', None)
            if owner is not None:
                # the labels of a table and of results calculated from it are one object
                i.touched.append((('labels', i.token(owner)), name + ' of the labels', i.where()))
            return
        if isinstance(o, Arr) and name == 'shape':
            i.unsup('shape assignment')
            return
        if isinstance(o, Symo):
            self.mutate(b, 'attribute ' + name)
            return
        if isinstance(o, S) and o.k == 'none':
            i.event('noattr', 'None has no attribute %s' % name)
            from .interp import Dead
            raise Dead('attr of None')
        i.unsup('attribute assignment on %r' % (o,))

    def delattr(self, b, name):
        self.i.unsup('attribute deletion')

    # -- items ------------------------------------------------------------------

    def dictkey(self, v):
        if isinstance(v, S):
            if v.t.op == 'str':
                return v.t.args[0]
            if v.t.op == 'num':
                x = v.t.args[0]
                return int(x) if x.denominator == 1 else x
            if v.t.op == 'none':
                return None.__class__
            if v.t.op == 'bool':
                return v.t.args[0]
        if isinstance(v, Tup):
            ks = [self.dictkey(x) for x in v.items]
            if None not in ks:
                return tuple(ks)
        return None

    def keyval(self, k):
        if isinstance(k, tuple):
            return Tup([self.keyval(x) for x in k])
        if k is None.__class__:
            return S(NONE, 'none')
        return self.i.const(k) if not isinstance(k, Fraction) else S(num(k))

    def getitem(self, b, k):
        return self.dist(self.getitem1, b, k)

    def intval(self, v):
        if isinstance(v, S):
            if v.t.op == 'num' and v.t.args[0].denominator == 1:
                return int(v.t.args[0])
            if v.t.op == 'bool':
                return int(v.t.args[0])
            r = TM.N(v.t, None) if v.t.op in ('add', 'mul', 'pow') else None
            if isinstance(r, TM.Rat):
                c = r.const()
                if c is not None and c.denominator == 1:
                    return int(c)
        return None

    def getitem1(self, b, k):
        i = self.i
        if isinstance(b, Opq):
            return b
        if isinstance(k, Opq):
            return k
        o = self.d(b)
        if isinstance(o, (Tup, Lst)):
            return self.seq_getitem(o, k)
        if isinstance(o, Dct):
            key = self.dictkey(k)
            if key is None:
                if isinstance(k, S) and o.items and not o.open:
                    return self.choose_key(o, k)
                return i.unsup('dictionary key')
            v = o.get(key)
            if v is not None:
                if isinstance(v, Alt):
                    v = i.prune(v)
                return v
            if o.open:
                return S(sym('%s[%s]' % (o.open, key), 'obj'))
            i.event('nokey', str(key))
            from .interp import Dead
            raise Dead('key')
        if isinstance(o, (Ser, Idx, Frm, Tab)):
            return i.pd.getitem(b, o, k)
        if isinstance(o, Arr):
            return self.arr_getitem(o, k, b)
        if isinstance(o, Lib):
            if o.kind in ('loc', 'iloc', 'at', 'iat'):
                return i.pd.indexer_get(o, k)
            if o.kind == 'range':
                idx = self.intval(k)
                r = self.iterate(b)
                if r is not None and idx is not None and -len(r) <= idx < len(r):
                    return r[idx]
                if isinstance(k, S):
                    return S(add(o.lo, mul(k.t, o.step)), 'int')
            if o.kind == 'rows':
                idx = self.intval(k)
                if idx is not None:
                    return o.items[idx]
                if isinstance(k, Tup) and self.intval(k.items[0]) is not None:
                    return self.getitem(o.items[self.intval(k.items[0])], k.items[1] if len(k.items) == 2 else Tup(k.items[1:]))
            if o.kind == 'groupby':
                return i.pd.group_getattr(o, self.dictkey(k))
            if o.kind == 'columns':
                return self.seq_getitem(Tup(o.items), k)
            if o.kind == 'symvec':
                return S(app('item', o.t, k.t) if isinstance(k, S) else opq('item'))
            if o.kind == 'symlist':
                return i.loops.symlist_get(o, k)
        if isinstance(o, S) and o.k == 'str':
            return self.str_getitem(o, k)
        if isinstance(o, S) and isinstance(k, S):
            return S(app('item', o.t, k.t))
        if isinstance(o, Symo):
            return S(app('item', o.t, k.t)) if isinstance(k, S) else i.unsup('item of symbolic object')
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is not None:
                return i.call_fn(m.bind(b), [k], {})
        return i.unsup('subscript of %s' % type(o).__name__)

    def choose_key(self, o, k):
        """symbolic key: choice over the constant keys"""
        items = list(o.items)
        val = None
        for key, v in reversed(items):
            if val is None:
                val = v
            else:
                c = self.truth(self.compare('eq', k, self.keyval(key)))
                vv, w = v, val
                val = self.i.split(c, lambda vv=vv: vv, lambda w=w: w)
        return val

    def str_getitem(self, o, k):
        if o.t.op == 'str':
            s = o.t.args[0]
            idx = self.intval(k)
            if idx is not None and -len(s) <= idx < len(s):
                return S(string(s[idx]), 'str')
            sl = self.const_slice(k, len(s))
            if sl is not None:
                return S(string(s[sl]), 'str')
        if isinstance(k, Lib) and k.kind == 'slice':
            def f(x):
                return NONE if x is None else (x.t if isinstance(x, S) else opq('slice'))
            return S(app('strslice', o.t, f(k.lo), f(k.hi)), 'str')
        if isinstance(k, S):
            return S(app('strslice', o.t, k.t, add(k.t, ONE)), 'str')
        return self.i.unsup('string index')

    def const_slice(self, k, n):
        if not (isinstance(k, Lib) and k.kind == 'slice'):
            return None
        out = []
        for x in (k.lo, k.hi, k.step):
            if x is None or (isinstance(x, S) and x.t is NONE):
                out.append(None)
            else:
                v = self.intval(x)
                if v is None:
                    return None
                out.append(v)
        return slice(*out)

    def seq_getitem(self, o, k):
        items = o.items
        sl = self.const_slice(k, len(items))
        if sl is not None:
            sel = items[sl]
            return self.new(Lst(sel)) if isinstance(o, Lst) else Tup(sel)
        idx = self.intval(k)
        if idx is not None:
            if -len(items) <= idx < len(items):
                v = items[idx]
                if isinstance(v, Alt):
                    v = self.i.prune(v)
                return v
            self.i.event('nokey', 'index %d of %d' % (idx, len(items)))
            from .interp import Dead
            raise Dead('index')
        if isinstance(k, S) and items:
            val = items[-1]
            for n in range(len(items) - 2, -1, -1):
                x, y = items[n], val
                c = cmp('eq', k.t, num(n))
                val = self.i.split(c, lambda x=x: x, lambda y=y: y)
            return val
        return self.i.unsup('sequence index')

    def setitem(self, b, k, v):
        return self.dist(lambda x: self.setitem1(x, k, v), b)

    def setitem1(self, b, k, v):
        i = self.i
        if isinstance(b, Opq):
            return
        o = self.d(b)
        if isinstance(o, Dct):
            key = self.dictkey(k)
            self.mutate(b, 'item %s' % key)
            if key is None:
                i.unsup('dictionary key')
                i.store(b, o.with_(open='?'))
                return
            i.store(b, o.set(key, v))
            return
        if isinstance(o, Lst):
            idx = self.intval(k)
            self.mutate(b, 'list item')
            if idx is not None and -len(o.items) <= idx < len(o.items):
                items = list(o.items)
                items[idx] = v
                i.store(b, o.with_(items=items))
                return
            i.unsup('list item assignment')
            return
        if isinstance(o, (Ser, Idx, Frm, Tab)):
            return i.pd.setitem(b, o, k, v)
        if isinstance(o, Arr):
            self.mutate(b, 'array item')
            return self.arr_setitem(b, o, k, v)
        if isinstance(o, Lib):
            if o.kind in ('loc', 'iloc', 'at', 'iat'):
                return i.pd.indexer_set(o, k, v)
        if isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is not None:
                return i.call_fn(m.bind(b), [k, v], {})
        if isinstance(o, Symo):
            self.mutate(b, 'item')
            return
        i.unsup('item assignment on %s' % type(o).__name__)

    def delitem(self, b, k):
        o = self.d(b)
        if isinstance(o, Dct):
            key = self.dictkey(k)
            self.mutate(b, 'item %s' % key)
            self.i.store(b, o.with_(items=tuple((n, v) for n, v in o.items if n != key)))
            return
        if isinstance(o, Frm):
            self.mutate(b, 'column')
            key = self.dictkey(k)
            self.i.store(b, o.with_(cols=tuple((n, v) for n, v in o.cols if n != key)))
            return
        if isinstance(b, Ref):
            self.mutate(b, 'item deleted')
        if isinstance(o, Lst):
            n = self.intval(k)
            if n is not None and -len(o.items) <= n < len(o.items):
                its = list(o.items)
                del its[n]
                self.i.store(b, o.with_(items=its))
                return
        self.i.unsup('item deletion')

    # -- small arrays --------------------------------------------------------

    def strides(self, shape):
        st = []
        n = 1
        for s in reversed(shape):
            st.insert(0, n)
            n *= s
        return st

    def arr_positions(self, o, k):
        """index expression -> (result shape, list of alternatives [(cond, positions)]) or None"""
        ks = list(k.items) if isinstance(k, Tup) else [k]
        ks = [x for x in ks]
        if any(isinstance(x, Lib) and x.kind == 'ellipsis' for x in ks):
            n = [j for j, x in enumerate(ks) if isinstance(x, Lib) and x.kind == 'ellipsis'][0]
            fill = len(o.shape) - (len(ks) - 1)
            ks = ks[:n] + [Lib('slice', lo=None, hi=None, step=None)] * fill + ks[n + 1:]
        if len(ks) > len(o.shape):
            return None
        ks += [Lib('slice', lo=None, hi=None, step=None)] * (len(o.shape) - len(ks))
        st = self.strides(o.shape)
        alts = [(TRUE, [0])]
        shape = []
        for dim, (x, n, s) in enumerate(zip(ks, o.shape, st)):
            if isinstance(x, Alt):
                return None
            sl = self.const_slice(x, n)
            if sl is not None:
                rng = list(range(n))[sl]
                alts = [(c, [p + q * s for p in ps for q in rng]) for c, ps in alts]
                shape.append(len(rng))
                continue
            idx = self.intval(x)
            if idx is not None:
                if not -n <= idx < n:
                    self.i.event('nokey', 'index %d of %d' % (idx, n))
                    from .interp import Dead
                    raise Dead('index')
                idx %= n
                alts = [(c, [p + idx * s for p in ps]) for c, ps in alts]
                continue
            xs = self.d(x)
            if isinstance(xs, (Lst, Tup, Arr)):
                its = self.iterate(x)
                vals = [self.intval(v) for v in its] if its is not None else [None]
                if None in vals:
                    return None
                alts = [(c, [p + (q % n) * s for p in ps for q in vals]) for c, ps in alts]
                shape.append(len(vals))
                continue
            if isinstance(x, S):
                new = []
                for c, ps in alts:
                    for q in range(n):
                        cond = cmp('eq', x.t, num(q))
                        if cond is FALSE:
                            continue
                        new.append((land(c, cond), [p + q * s for p in ps]))
                    # negative indices count from the end
                alts = new
                if len(alts) > 4096:
                    return None
                continue
            return None
        return shape, alts

    def arr_getitem(self, o, k, b=None):
        kk = self.d(k)
        if isinstance(kk, Arr) and kk.shape == o.shape and all(c.op in ('cmp', 'and', 'or', 'not', 'bool', 'isnull', 'g') for c in kk.cells):
            return Lib('maskedarr', arr=o, mask=kk)
        if isinstance(kk, Ser):
            # gather with a vector of positions
            if len(o.shape) == 1:
                t = o.cells[-1]
                for n in range(len(o.cells) - 2, -1, -1):
                    t = g(cmp('eq', kk.t, num(n)), o.cells[n], t)
                return self.new(Ser(kk.axis, t, 'array'))
            return self.i.unsup('gather')
        r = self.arr_positions(o, k)
        if r is None:
            return self.i.unsup('array index')
        shape, alts = r
        if not alts:
            return self.i.unsup('array index out of range')
        n = len(alts[0][1])
        cells = []
        for j in range(n):
            t = o.cells[alts[-1][1][j]]
            for c, ps in reversed(alts[:-1]):
                t = g(c, o.cells[ps[j]], t)
            cells.append(t)
        if not shape:
            return S(cells[0])
        r = self.new(Arr(shape, cells))
        ks = k.items if isinstance(k, Tup) else [k]
        if isinstance(b, Ref) and not any(isinstance(self.d(x), (Lst, Tup, Arr)) for x in ks):
            self.arr_view(r, b, alts)
        return r

    def arr_view(self, r, b, alts):
        """notes that r shows cells of array b"""
        self.i.views[r.id] = (b.id, alts)
        self.i.viewed.setdefault(b.id, []).append(r.id)
        return r

    def arr_store(self, b, o, skip=None):
        """new cells of an array, also seen through its views"""
        i = self.i
        i.store(b, o)
        v = i.views.get(b.id)
        if v is not None and v[0] != skip:
            base = i.st.heap.get(v[0])
            if isinstance(base, Arr):
                cells = list(base.cells)
                for c, ps in v[1]:
                    for j, p in enumerate(ps):
                        cells[p] = g(c, o.cells[j], cells[p])
                self.arr_store(Ref(v[0]), base.with_(cells=cells), b.id)
        for n in i.viewed.get(b.id, ()):
            w = i.st.heap.get(n)
            if n == skip or not isinstance(w, Arr):
                continue
            alts = i.views[n][1]
            cells = []
            for j in range(len(w.cells)):
                t = o.cells[alts[-1][1][j]]
                for c, ps in reversed(alts[:-1]):
                    t = g(c, o.cells[ps[j]], t)
                cells.append(t)
            self.arr_store(Ref(n), w.with_(cells=cells), b.id)

    def arr_setitem(self, b, o, k, v):
        kk = self.d(k)
        if isinstance(kk, Arr) and kk.shape == o.shape and not all(self.intval(S(c)) is not None and c.op == 'num' for c in kk.cells):
            vv = self.d(v)
            if isinstance(vv, S):
                self.arr_store(b, o.with_(cells=[g(c, vv.t, x) for c, x in zip(kk.cells, o.cells)]))
                return
            if isinstance(vv, Lib) and vv.kind == 'maskedarr' and vv.mask.cells == kk.cells:
                self.arr_store(b, o.with_(cells=[g(c, y, x) for c, x, y in zip(kk.cells, o.cells, vv.arr.cells)]))
                return
            self.i.unsup('masked array store')
            return
        r = self.arr_positions(o, k)
        if r is None:
            self.i.unsup('array store')
            self.arr_store(b, o.with_(cells=[opq('array store at %s' % self.i.where())] * len(o.cells)))
            return
        shape, alts = r
        n = 1
        for s in shape:
            n *= s
        vals = self.broadcast_cells(v, tuple(shape))
        if vals is None:
            self.i.unsup('array store value')
            vals = [opq('array store at %s' % self.i.where())] * n
        cells = list(o.cells)
        for c, ps in alts:
            for j, p in enumerate(ps):
                cells[p] = g(c, under(vals[j], c), cells[p])
        self.arr_store(b, o.with_(cells=cells))

    def broadcast_cells(self, v, shape):
        n = 1
        for s in shape:
            n *= s
        o = self.d(v)
        if isinstance(o, S):
            return [o.t] * n
        if isinstance(o, (Lst, Tup)):
            a = self.to_arr(v)
            o = a
        if isinstance(o, Arr):
            if o.shape == tuple(shape):
                return list(o.cells)
            if len(o.cells) == 1:
                return [o.cells[0]] * n
            # numpy broadcasting
            sh = (1,) * (len(shape) - len(o.shape)) + o.shape
            if len(sh) != len(shape) or any(a not in (1, b) for a, b in zip(sh, shape)):
                return None
            out = []
            st = self.strides(sh)
            for pos in range(n):
                rem = pos
                p = 0
                for d_, s_ in zip(range(len(shape)), self.strides(shape)):
                    q = rem // s_
                    rem %= s_
                    if sh[d_] != 1:
                        p += q * st[d_]
                out.append(o.cells[p])
            return out
        return None

    def to_arr(self, v):
        """nested constant-shape sequences -> Arr or None"""
        o = self.d(v)
        if isinstance(o, Arr):
            return o
        if isinstance(o, S):
            return Arr((), (o.t,))
        if isinstance(o, Lib) and o.kind == 'range':
            its = self.iterate(o)
            if its is None:
                return None
            return Arr((len(its),), [x.t for x in its])
        if isinstance(o, (Lst, Tup)):
            parts = [self.to_arr(x) for x in o.items]
            if any(p is None for p in parts):
                return None
            if not parts:
                return Arr((0,), ())
            if any(p.shape != parts[0].shape for p in parts):
                return None
            cells = []
            for p in parts:
                cells += list(p.cells)
            return Arr((len(parts),) + parts[0].shape, cells)
        return None

    def transpose(self, o):
        if len(o.shape) == 1:
            return self.new(o)
        if len(o.shape) == 2:
            r, c = o.shape
            return self.new(Arr((c, r), [o.cells[a * c + b] for b in range(c) for a in range(r)]))
        return self.permuted(o, list(range(len(o.shape)))[::-1])

    def permuted(self, o, order):
        """array with its dimensions in another order"""
        step = [1] * len(o.shape)
        for k in range(len(o.shape) - 2, -1, -1):
            step[k] = step[k + 1] * o.shape[k + 1]
        at = [0]
        for k in order:
            at = [p + step[k] * q for p in at for q in range(o.shape[k])]
        return self.new(Arr([o.shape[k] for k in order], [o.cells[p] for p in at]))

    def arr_lift(self, f, a, b):
        """elementwise binary operation with broadcasting"""
        oa, ob = self.d(a), self.d(b)
        sa = oa.shape if isinstance(oa, Arr) else ()
        sb = ob.shape if isinstance(ob, Arr) else ()
        n = max(len(sa), len(sb))
        pa = (1,) * (n - len(sa)) + tuple(sa)
        pb = (1,) * (n - len(sb)) + tuple(sb)
        shape = []
        for x, y in zip(pa, pb):
            if x != y and 1 not in (x, y):
                self.i.event('badcall', 'shapes %s and %s' % (sa, sb))
                return self.i.unsup('array shapes differ')
            shape.append(max(x, y))
        ca = self.broadcast_cells(a, tuple(shape))
        cb = self.broadcast_cells(b, tuple(shape))
        if ca is None or cb is None:
            return self.i.unsup('broadcast')
        return self.new(Arr(shape, [f(x, y) for x, y in zip(ca, cb)]))

    # -- truth, comparison, arithmetic ------------------------------------------

    def truth(self, v):
        i = self.i
        if isinstance(v, Alt):
            v = i.prune(v)
            if isinstance(v, Alt):
                return g(v.c, self.truth(v.a), self.truth(v.b))
        o = self.d(v)
        from .interp import AltH
        if isinstance(o, AltH):
            return opq('truth of alternatives')
        if isinstance(o, S):
            t = o.t
            if t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull'):
                return t
            if t.op == 'none':
                return FALSE
            if t.op == 'num':
                return boolean(t.args[0] != 0)
            if t.op == 'nan':
                return TRUE
            if t.op == 'str':
                return boolean(bool(t.args[0]))
            if o.k == 'str':
                return lnot(cmp('eq', t, string('')))
            if o.k in ('bool',) or (t.op in ('sym', 'app', 'opq') and o.k is None):
                return t
            if t.op == 'g':
                return g(t.args[0], self.truth(S(t.args[1])), self.truth(S(t.args[2])))
            if o.k in ('int', 'float') or t.op in ('add', 'mul', 'pow', 'fn', 'col', 'tim'):
                return lnot(cmp('eq', t, ZERO))
            return t
        if isinstance(o, (Lst, Tup)):
            return boolean(len(o.items) > 0)
        if isinstance(o, Dct):
            if o.open:
                return opq('truth of open dict')
            return boolean(len(o.items) > 0)
        if isinstance(o, Arr):
            if len(o.cells) == 1:
                return self.truth(S(o.cells[0]))
            i.event('badcall', 'truth value of an array')
            from .interp import Dead
            raise Dead('ambiguous truth value')
        if isinstance(o, (Ser, Frm, Tab, Idx)):
            i.event('badcall', 'truth value of a series or frame')
            from .interp import Dead
            raise Dead('ambiguous truth value')
        if isinstance(o, (FnV, ClsV, ModV, Ext, Meth)):
            return TRUE
        if isinstance(o, Obj):
            return TRUE
        if isinstance(o, Opq):
            return opq(o.why)
        if isinstance(o, Lib):
            if o.kind == 'jsonobj':
                return TRUE
            if o.kind in ('set', 'columns', 'dictview'):
                return boolean(len(o.items) > 0)
            if o.kind == 'symlist':
                return cmp('gt', o.n, ZERO)
            return TRUE
        if isinstance(o, Symo):
            return mk('app', 'truth', o.t)
        return opq('truth')

    def compare(self, op, a, b):
        if op in ('in', 'notin'):
            r = self.dist(lambda x: self.contains(a, x), b)
            c = r.t if isinstance(r, S) else opq('contains')
            return S(c if op == 'in' else lnot(c), 'bool')
        return self.dist(lambda x, y: self.compare1(op, x, y), a, b)

    def haskey(self, axis, a):
        """condition that a name is among the labels of per-column values"""
        ok = TRUE
        if axis.args[0] == 'filter':
            ok, axis = axis.args[2], axis.args[1]
        if axis.args[0] != 'keys' or axis.args[1] != 'columns' or not (isinstance(a, S) and a.t.op == 'str'):
            return None
        if a.t not in axis.args[2:]:
            return FALSE
        return TM.rewrite(ok, lambda t: a.t if t is tim('key0') else None)

    def contains(self, a, b):
        i = self.i
        o = self.d(b)
        if isinstance(o, (Tup, Lst)) or (isinstance(o, Lib) and o.kind in ('set', 'dictview', 'range')):
            items = self.iterate(b)
            if items is not None:
                if isinstance(o, Lib) and o.kind == 'dictview' and o.what == 'items':
                    return i.unsup('membership in items()')
                cs = []
                for x in items:
                    cs.append(self.truth(self.compare('eq', a, x)))
                return S(lor(*cs), 'bool')
            if isinstance(o, Lib) and o.kind == 'range' and isinstance(a, S):
                return S(land(cmp('le', o.lo, a.t), cmp('lt', a.t, o.hi)), 'bool')
        if isinstance(o, Dct):
            k = self.dictkey(a)
            if k is not None:
                if o.get(k) is not None:
                    return S(TRUE, 'bool')
                if o.open:
                    return S(sym('has:%s[%s]' % (o.open, k), 'obj'), 'bool')
                return S(FALSE, 'bool')
            cs = [self.truth(self.compare('eq', a, self.keyval(n))) for n, v in o.items]
            return S(lor(*cs), 'bool')
        if isinstance(o, Lib) and o.kind == 'jsonobj':
            return i.pd.jsonobj_in(o, a)
        if isinstance(o, Lib) and o.kind == 'bycolumns':
            c = self.haskey(o.axis, a)
            return S(c, 'bool') if c is not None else i.unsup('membership test')
        if isinstance(o, Frm):
            return S(i.pd.hascol(o, self.dictkey(a), a), 'bool')
        if isinstance(o, Lib) and o.kind == 'columns':
            k = self.dictkey(a)
            if k is not None and o.frame is not None:
                return S(i.pd.hascol(o.frame, k, a), 'bool')
            if o.frame is not None and isinstance(a, S):
                return S(app('isin', a.t, mk('str', 'columns:%s' % (o.frame.open or '',))), 'bool')
        if isinstance(o, Arr):
            return S(lor(*[cmp('eq', a.t, c) for c in o.cells]), 'bool') if isinstance(a, S) else i.unsup('membership')
        if isinstance(o, S) and o.k == 'str' and isinstance(a, S):
            if o.t.op == 'str' and a.t.op == 'str':
                return S(boolean(a.t.args[0] in o.t.args[0]), 'bool')
            return S(app('substr', a.t, o.t), 'bool')
        if isinstance(o, Ser) and isinstance(a, S):
            if o.kind in ('series', 'index') and (o.kind == 'series' or o.t is tim('key0')):
                c = self.haskey(o.axis, a)
                if c is not None:
                    return S(c, 'bool')
            if o.kind == 'series':
                return S(app('inindex', a.t, o.axis), 'bool')
            return S(app('invalues', a.t, o.axis, o.t), 'bool')
        if isinstance(o, Idx) and isinstance(a, S):
            return S(app('inindex', a.t, o.axis), 'bool')
        if isinstance(o, Opq):
            return o
        if isinstance(o, S) and isinstance(a, S):
            return S(app('isin', a.t, o.t), 'bool')
        if isinstance(o, Symo) and isinstance(a, S):
            return S(app('isin', a.t, o.t), 'bool')
        return i.unsup('membership test')

    def same_ref(self, a, b):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id

    def compare1(self, op, a, b):
        i = self.i
        if isinstance(a, Opq):
            return a
        if isinstance(b, Opq):
            return b
        oa, ob = self.d(a), self.d(b)
        if op in ('is', 'isnot'):
            if isinstance(a, S) and isinstance(b, S):
                c = cmp('eq', a.t, b.t)
                if b.t is NONE and a.k in ('str', 'int', 'float', 'bool', 'ts', 'td', 'offset') and a.t is not NONE:
                    c = FALSE if a.t.op != 'sym' or 'obj' not in a.t.args[1] else c
            elif self.same_ref(a, b):
                c = TRUE
            elif isinstance(a, (ClsV, FnV)) or isinstance(b, (ClsV, FnV)):
                c = boolean(a is b)
            elif isinstance(a, Ext) and isinstance(b, Ext):
                c = boolean(a.path == b.path)
            else:
                # an object and a scalar, or two different objects
                if isinstance(oa, Symo) or isinstance(ob, Symo):
                    c = app('is', oa.t if isinstance(oa, (Symo, S)) else NONE, ob.t if isinstance(ob, (Symo, S)) else NONE)
                    if NONE in (getattr(oa, 't', None), getattr(ob, 't', None)):
                        c = FALSE
                else:
                    c = FALSE
            return S(c if op == 'is' else lnot(c), 'bool')
        if isinstance(oa, (Ser, Idx, Frm, Tab)) or isinstance(ob, (Ser, Idx, Frm, Tab)):
            if op in ('eq', 'ne') and (isinstance(b, S) and b.t is NONE):
                pass
            return i.pd.compare(op, a, b)
        if isinstance(oa, Arr) or isinstance(ob, Arr):
            if all(isinstance(x, (Arr, S)) for x in (oa, ob)):
                return self.arr_lift(lambda x, y: cmp(op, x, y), a, b)
            x, y = self.to_arr(a), self.to_arr(b)
            if x is not None and y is not None:
                return self.arr_lift(lambda p, q: cmp(op, p, q), self.new(x), self.new(y))
            return i.unsup('array comparison')
        if isinstance(a, S) and isinstance(b, S):
            return S(cmp(op, a.t, b.t), 'bool')
        if isinstance(oa, Obj) and op in ('eq', 'ne'):
            m = oa.cls.lookup('__eq__' if op == 'eq' else '__ne__')
            if m is not None:
                return i.call_fn(m.bind(a), [b], {})
        if isinstance(oa, (Tup, Lst)) and isinstance(ob, (Tup, Lst)):
            if op in ('eq', 'ne'):
                if len(oa.items) != len(ob.items) or type(oa).__name__.replace('Shape', 'Tup') != type(ob).__name__.replace('Shape', 'Tup'):
                    c = FALSE
                else:
                    c = land(*[self.truth(self.compare('eq', x, y)) for x, y in zip(oa.items, ob.items)])
                return S(c if op == 'eq' else lnot(c), 'bool')
        if isinstance(a, Ext) and isinstance(b, Ext):
            c = boolean(a.path == b.path)
            return S(c if op == 'eq' else lnot(c), 'bool')
        if isinstance(a, (Ext, ClsV)) or isinstance(b, (Ext, ClsV)):
            c = boolean(a is b)
            return S(c if op == 'eq' else lnot(c), 'bool')
        if op in ('eq', 'ne') and (isinstance(a, S) and a.t.op in ('none', 'str', 'num') or isinstance(b, S) and b.t.op in ('none', 'str', 'num')):
            return S(boolean(op == 'ne'), 'bool')
        if self.same_ref(a, b) and op in ('eq', 'ne'):
            return S(boolean(op == 'eq'), 'bool')
        return i.unsup('comparison')

    def unary(self, op, v):
        def f(x):
            o = self.d(x)
            if isinstance(x, Opq):
                return x
            if op == 'UAdd':
                return x
            if op == 'USub':
                return self.map1(neg, x)
            if op == 'Invert':
                if isinstance(o, S) and o.t.op == 'num':
                    return S(add(num(-1), neg(o.t)), 'int')
                return self.map1(lnot, x)
            return self.i.unsup('unary operator')
        return self.dist(f, v)

    def map1(self, f, v, kind=None):
        """elementwise function of one argument"""
        o = self.d(v)
        if isinstance(o, S):
            return S(f(o.t), o.k if o.k in ('td',) else None)
        if isinstance(o, Ser):
            return self.new(o.with_(t=f(o.t), origin=None, view=None, kind='array' if o.kind == 'list' else o.kind))
        if isinstance(o, Arr):
            return self.new(o.with_(cells=[f(c) for c in o.cells], origin=None, view=None))
        if isinstance(o, Frm):
            if o.open:
                return self.i.unsup('operation on all columns of an open frame')
            return self.new(o.with_(cols=tuple((n, f(t)) for n, t in o.cols), origin=None, owner=None))
        if isinstance(o, Tab):
            return self.new(o.with_(t=f(o.t), origin=None))
        if isinstance(o, (Lst, Tup)):
            a = self.to_arr(v)
            if a is not None:
                return self.new(a.with_(cells=[f(c) for c in a.cells]))
        if isinstance(o, Lib) and o.kind == 'maskedarr':
            return Lib('maskedarr', arr=o.arr.with_(cells=[f(c) for c in o.arr.cells]), mask=o.mask)
        if isinstance(o, Lib) and o.kind == 'rows':
            return Lib('rows', items=[self.map1(f, x) for x in o.items])
        if isinstance(o, Opq):
            return o
        return self.i.unsup('elementwise operation on %s' % type(o).__name__)

    def arith(self, op):
        return {
            'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'Pow': power,
            'Mod': lambda a, b: fn('mod', a, b), 'FloorDiv': lambda a, b: fn('floordiv', a, b),
            'BitAnd': land, 'BitOr': lor, 'BitXor': lambda a, b: lor(land(a, lnot(b)), land(lnot(a), b)),
        }.get(op)

    def binop(self, op, a, b):
        return self.dist(lambda x, y: self.binop1(op, x, y), a, b)

    def binop1(self, op, a, b):
        i = self.i
        if isinstance(a, Opq):
            return a
        if isinstance(b, Opq):
            return b
        oa, ob = self.d(a), self.d(b)
        f = self.arith(op)
        if isinstance(oa, Obj):
            m = oa.cls.lookup({'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op, ''))
            if m is not None:
                return i.call_fn(m.bind(a), [b], {})
            i.event('badcall', 'unsupported operand')
            return i.unsup('operator on object')
        if isinstance(a, S) and isinstance(b, S):
            return self.scalar_op(op, f, a, b)
        if isinstance(oa, (Ser, Idx, Frm, Tab)) or isinstance(ob, (Ser, Idx, Frm, Tab)):
            return i.pd.binop(op, f, a, b)
        if op == 'Add' and isinstance(oa, (Lst, Tup)) and isinstance(ob, (Lst, Tup)):
            if isinstance(oa, Lst):
                return self.new(Lst(oa.items + ob.items))
            return Tup(oa.items + ob.items)
        if op == 'Mult' and isinstance(oa, (Lst, Tup)) and isinstance(b, S):
            n = self.intval(b)
            if n is not None:
                return self.new(Lst(oa.items * n)) if isinstance(oa, Lst) else Tup(oa.items * n)
            if isinstance(oa, Lst) and len(oa.items) == 1 and isinstance(oa.items[0], S):
                return self.new(Ser(self.axis_of_len(b.t), oa.items[0].t, 'list'))
        if op == 'Mult' and isinstance(ob, (Lst, Tup)) and isinstance(a, S):
            return self.binop1(op, b, a)
        if op == 'Mod' and isinstance(a, S) and a.k == 'str':
            return self.percent(a, b)
        if isinstance(oa, Arr) or isinstance(ob, Arr):
            x, y = a, b
            if not isinstance(oa, (Arr, S)):
                ta = self.to_arr(a)
                if ta is None:
                    return i.unsup('array operand')
                x = self.new(ta)
            if not isinstance(ob, (Arr, S)):
                tb = self.to_arr(b)
                if tb is None:
                    return i.unsup('array operand')
                y = self.new(tb)
            if f is None:
                return i.unsup('array operator')
            return self.arr_lift(f, x, y)
        if isinstance(oa, Lib) and oa.kind == 'maskedarr':
            if isinstance(b, S):
                return Lib('maskedarr', arr=oa.arr.with_(cells=[f(c, b.t) for c in oa.arr.cells]), mask=oa.mask)
            if isinstance(ob, Lib) and ob.kind == 'maskedarr' and ob.mask.cells == oa.mask.cells:
                return Lib('maskedarr', arr=oa.arr.with_(cells=[f(x, y) for x, y in zip(oa.arr.cells, ob.arr.cells)]), mask=oa.mask)
        if isinstance(oa, Lib) and oa.kind == 'rows' and isinstance(b, S):
            return Lib('rows', items=[self.binop(op, x, b) for x in oa.items])
        if isinstance(oa, Lib) and isinstance(ob, Lib) and oa.kind == ob.kind == 'set':
            return i.unsup('set operator')
        if isinstance(oa, Lib) and oa.kind == 'date_offset':
            return i.unsup('date offset')
        return i.unsup('operator %s on %s and %s' % (op, type(oa).__name__, type(ob).__name__))

    def scalar_op(self, op, f, a, b):
        i = self.i
        if a.k == 'str' or b.k == 'str':
            if op == 'Mod':
                return self.percent(a, b)
            if op == 'Add':
                if a.k == 'str' and b.k == 'str':
                    return self.concat_str([a, b])
                if b.k is None or a.k is None:
                    return self.concat_str([a, b])
                i.event('badcall', 'adding str and %s' % (b.k if a.k == 'str' else a.k))
                from .interp import Dead
                raise Dead('str + number')
            if op == 'Mult':
                s, n = (a, b) if a.k == 'str' else (b, a)
                k = self.intval(n)
                if s.t.op == 'str' and k is not None:
                    return S(string(s.t.args[0] * k), 'str')
                return S(app('repeat', s.t, n.t), 'str')
            return i.unsup('string operator')
        for x in (a, b):
            if x.k == 'none':
                i.event('badcall', 'operator %s on None' % op)
                from .interp import Dead
                raise Dead('None operand')
        if f is None:
            return i.unsup('operator %s' % op)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if not all(isbool(x) for x in (a, b)):
                return i.unsup('bit operator on numbers')
            return S(f(a.t, b.t), 'bool')
        k = None
        if 'ts' in (a.k, b.k):
            if op == 'Sub' and a.k == 'ts' and b.k == 'ts':
                k = 'td'
            elif op in ('Add', 'Sub'):
                k = 'ts'
                for x in (a, b):
                    if x.k not in ('ts', 'td'):
                        i.event('badcall', 'adding a number to a Timestamp')
                        from .interp import Dead
                        raise Dead('Timestamp + number')
        elif 'td' in (a.k, b.k):
            k = 'td'
            if op == 'Div' and a.k == 'td' and b.k == 'td':
                k = None
        elif a.k == 'int' and b.k == 'int' and op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'Pow'):
            k = 'int'
        elif 'float' in (a.k, b.k) or op == 'Div':
            k = 'float' if a.k in ('int', 'float', 'bool') and b.k in ('int', 'float', 'bool') else None
        if op in ('Div', 'FloorDiv', 'Mod') and b.t.op == 'num' and b.t.args[0] == 0:
            return S(mk('inf', 1) if op == 'Div' else NANT)
        return S(f(a.t, b.t), k)

    # -- in-place operators -------------------------------------------------------

    def augassign(self, s, fr):
        i = self.i
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = i.eval(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=0), fr)
            v = i.eval(s.value, fr)
            r = self.inplace(op, cur, v)
            if r is not None:
                i.setname(fr, t.id, r)
            return
        if isinstance(t, ast.Attribute):
            b = i.eval(t.value, fr)
            i.curnode = t
            cur = self.getattr(b, t.attr)
            v = i.eval(s.value, fr)
            r = self.inplace(op, cur, v)
            if r is not None:
                self.setattr(b, t.attr, r)
            return
        if isinstance(t, ast.Subscript):
            b = i.eval(t.value, fr)
            k = i.eval(t.slice, fr)
            cur = self.getitem(b, k)
            v = i.eval(s.value, fr)
            r = self.inplace(op, cur, v, sub=True)
            i.curnode = t
            self.setitem(b, k, r if r is not None else cur)
            return
        i.unsup('augmented assignment')

    def inplace(self, op, cur, v, sub=False):
        """returns the new value; mutable arrays, series and lists are changed in place"""
        def f(x, y):
            o = self.d(x)
            if isinstance(x, Ref) and isinstance(o, (Ser, Frm, Tab)) and o.__class__ is not Idx:
                r = self.binop(op, x, y)
                ro = self.d(r)
                if isinstance(o, Ser) and o.kind == 'index':
                    return r
                if isinstance(r, Opq):
                    return r
                self.mutate(x, 'in-place operator')
                if isinstance(o, Ser) and isinstance(ro, Ser):
                    if ro.axis is not o.axis and o.kind == 'series':
                        ro = self.i.pd.reindexed(ro, o.axis)
                    self.i.store(x, o.with_(t=ro.t, view=None))
                    if sub:
                        return x
                    return x
                if isinstance(o, Frm) and isinstance(ro, Frm):
                    self.i.store(x, o.with_(cols=ro.cols))
                    return x
                if isinstance(o, Tab) and isinstance(ro, Tab):
                    self.i.store(x, o.with_(t=ro.t))
                    return x
                return r
            if isinstance(x, Ref) and isinstance(o, Arr):
                r = self.binop(op, x, y)
                ro = self.d(r)
                if isinstance(ro, Arr) and ro.shape == o.shape:
                    self.mutate(x, 'in-place operator')
                    self.arr_store(x, o.with_(cells=ro.cells))
                    return x
                return r
            if isinstance(x, Ref) and isinstance(o, Lst) and op == 'Add':
                its = self.iterate(y)
                self.mutate(x, 'list extended')
                if its is None:
                    return self.i.unsup('list extended by unknown sequence')
                self.i.store(x, o.with_(items=o.items + tuple(its)))
                return x
            return self.binop(op, x, y)
        return self.dist(f, cur, v)

    # -- strings -------------------------------------------------------------------

    def const_text(self, v, spec='s'):
        if not isinstance(v, S):
            return None
        t = v.t
        if t.op == 'str':
            return t.args[0]
        if t.op == 'num':
            x = t.args[0]
            if x.denominator == 1 and v.k != 'float':
                return str(int(x))
            return repr(float(x))
        if t.op == 'bool':
            return str(t.args[0])
        if t.op == 'none':
            return 'None'
        if t.op == 'nan':
            return 'nan'
        return None

    def percent(self, a, b):
        vals = list(b.items) if isinstance(b, Tup) else [b]
        if a.t.op == 'str':
            txt = a.t.args[0]
            parts = []
            pos = 0
            buf = ''
            n = 0
            import re
            for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])', txt):
                buf += txt[pos:m.start()]
                pos = m.end()
                if m.group(5) == '%':
                    buf += '%'
                    continue
                if m.group(1):
                    o = self.d(b)
                    v = o.get(m.group(1)) if isinstance(o, Dct) else None
                    if v is None:
                        return S(app('fmt', a.t, opq('mapping')), 'str')
                else:
                    if n >= len(vals):
                        self.i.event('badcall', 'not enough arguments for format string')
                        from .interp import Dead
                        raise Dead('format')
                    v = vals[n]
                    n += 1
                if buf:
                    parts.append(S(string(buf), 'str'))
                    buf = ''
                conv = m.group(5)
                pv = self.const_text(v)
                plain = not (m.group(2) or m.group(3) or m.group(4))
                if conv == 's' and plain and pv is not None:
                    parts.append(S(string(pv), 'str'))
                elif conv in 'di' and plain and isinstance(v, S) and v.t.op == 'num':
                    parts.append(S(string(str(int(v.t.args[0]))), 'str'))
                elif isinstance(v, S):
                    if conv == 's' and plain and v.k == 'str':
                        parts.append(v)
                    else:
                        parts.append(S(app('fmt', string(m.group(0)), v.t), 'str'))
                else:
                    parts.append(S(app('fmt', string(m.group(0)), opq('object')), 'str'))
            buf += txt[pos:]
            if n != len(vals) and not isinstance(self.d(b), Dct):
                self.i.event('badcall', 'not all arguments converted during string formatting')
                from .interp import Dead
                raise Dead('format')
            if buf:
                parts.append(S(string(buf), 'str'))
            return self.concat_str(parts)
        return S(app('fmt', a.t, *[v.t if isinstance(v, S) else opq('object') for v in vals]), 'str')

    def concat_str(self, parts):
        out = []
        for p in parts:
            if not isinstance(p, S):
                p = S(app('str', opq('object')), 'str')
            ts = p.t.args[1:] if p.t.op == 'app' and p.t.args[0] == 'cat' else (p.t,)
            for t in ts:
                if t.op == 'str' and out and out[-1].op == 'str':
                    out[-1] = string(out[-1].args[0] + t.args[0])
                elif t.op == 'str' and t.args[0] == '':
                    continue
                else:
                    out.append(t)
        if not out:
            return S(string(''), 'str')
        if len(out) == 1:
            return S(out[0], 'str')
        return S(app('cat', *out), 'str')

    def format_value(self, x, spec, conversion):
        c = self.const_text(x)
        if c is not None and not spec and conversion in (-1, 115):
            return S(string(c), 'str')
        if isinstance(x, S):
            if x.k == 'str' and not spec and conversion in (-1, 115):
                return x
            return S(app('fmt', string('%s' if not spec else '{:%s}' % spec), x.t), 'str')
        return S(app('fmt', string('%s'), opq('object')), 'str')

    def str_method(self, o, name, args, kwargs):
        t = o.t
        cargs = [a.t.args[0] if isinstance(a, S) and a.t.op == 'str' else (self.intval(a) if isinstance(a, S) and a.t.op == 'num' else None) for a in args]
        if t.op == 'str' and None not in cargs and not kwargs and name in (
                'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'split', 'rsplit', 'splitlines', 'title',
                'capitalize', 'isdigit', 'find', 'count', 'zfill', 'ljust', 'rjust', 'isalpha', 'index', 'partition', 'rpartition', 'isupper', 'islower',
                'removeprefix', 'removesuffix', 'isspace', 'swapcase', 'casefold', 'rfind', 'center', 'isalnum', 'isnumeric'):
            try:
                r = getattr(t.args[0], name)(*cargs)
            except Exception:
                return self.i.unsup('string method %s' % name)
            if isinstance(r, list):
                return self.new(Lst([S(string(x), 'str') for x in r]))
            if isinstance(r, tuple):
                return Tup([S(string(x), 'str') for x in r])
            return self.i.const(r)
        if name == 'format':
            if t.op == 'str':
                return self.format_string(t.args[0], args, kwargs)
            return S(app('fmt', t, *[a.t if isinstance(a, S) else opq('object') for a in args]), 'str')
        if name == 'join':
            o2 = args[0]
            its = self.iterate(o2)
            if its is not None:
                parts = []
                for k, x in enumerate(its):
                    if k:
                        parts.append(o)
                    parts.append(x)
                return self.concat_str(parts)
            d = self.d(o2)
            return S(app('join', t, self.seqterm(o2)), 'str')
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'encode', 'decode', 'zfill'):
            return S(app('str.' + name, t, *[a.t if isinstance(a, S) else opq('object') for a in args]), 'str')
        if name in ('split', 'rsplit', 'splitlines', 'partition'):
            extra = [a.t if isinstance(a, S) else opq('object') for a in args]
            for k, v in sorted(kwargs.items()):
                extra.append(v.t if isinstance(v, S) else opq('object'))
            tt = app('str.' + name, t, *extra)
            return Lib('symvec', t=tt, cls='list', elem='str')
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace'):
            return S(app('str.' + name, t, *[a.t if isinstance(a, S) else opq('object') for a in args]), 'bool')
        if name in ('find', 'count', 'index'):
            return S(app('str.' + name, t, *[a.t if isinstance(a, S) else opq('object') for a in args]), 'int')
        return self.i.unsup('string method %s' % name)

    def seqterm(self, v):
        o = self.d(v)
        if isinstance(o, Lib) and o.kind == 'columns':
            return app('columns', *[n if isinstance(n, T) else string(str(n)) for n in [x.t for x in o.items]])
        if isinstance(o, Lib) and hasattr(o, 't'):
            return o.t
        if isinstance(o, (S, Ser)):
            return o.t
        return opq('sequence')

    def format_string(self, txt, args, kwargs):
        import string as st
        parts = []
        auto = 0
        try:
            fields = list(st.Formatter().parse(txt))
        except ValueError:
            return self.i.unsup('format string')
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(S(string(lit), 'str'))
            if field is None:
                continue
            if field == '':
                k = auto
                auto += 1
                v = args[k] if k < len(args) else None
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else None
            else:
                v = kwargs.get(field)
            if v is None:
                self.i.event('badcall', 'format field %r has no argument' % field)
                from .interp import Dead
                raise Dead('format')
            parts.append(self.format_value(v, spec, -1 if conv is None else ord(conv)))
        return self.concat_str(parts)

    # -- iteration -------------------------------------------------------------------

    def iterate(self, v):
        """list of values of a statically known sequence, else None"""
        if isinstance(v, Alt):
            v = self.i.prune(v)
        o = self.d(v)
        if isinstance(o, (Tup, Lst)):
            return list(o.items)
        if isinstance(o, Arr):
            if len(o.shape) == 1:
                return [S(c) for c in o.cells]
            n = o.shape[0]
            m = len(o.cells) // n if n else 0
            rows = [self.new(Arr(o.shape[1:], o.cells[j * m:(j + 1) * m])) for j in range(n)]
            if isinstance(v, Ref):
                for j, x in enumerate(rows):
                    self.arr_view(x, v, [(TRUE, list(range(j * m, (j + 1) * m)))])
            return rows
        if isinstance(o, Dct):
            if o.open:
                return None
            return [self.keyval(k) for k, x in o.items]
        if isinstance(o, S) and o.k == 'str' and o.t.op == 'str':
            return [S(string(c), 'str') for c in o.t.args[0]]
        if isinstance(o, Lib):
            if o.kind == 'range':
                lo, hi, st = (self.intval(S(x)) for x in (o.lo, o.hi, o.step))
                if None not in (lo, hi, st) and st != 0 and len(range(lo, hi, st)) <= 4096:
                    return [S(num(k), 'int') for k in range(lo, hi, st)]
                return None
            if o.kind in ('set', 'dictview', 'columns'):
                if o.kind == 'columns' and o.frame is not None and o.frame.open:
                    return None
                if getattr(o, 'open', None):
                    return None
                return list(o.items)
            if o.kind == 'zip':
                its = [self.iterate(x) for x in o.parts]
                if all(x is not None for x in its):
                    return [Tup(z) for z in zip(*its)]
                return None
            if o.kind == 'enumerate':
                its = self.iterate(o.seq)
                if its is not None:
                    return [Tup([S(add(num(k), o.start), 'int'), x]) for k, x in enumerate(its)]
                return None
            if o.kind == 'reversed':
                its = self.iterate(o.seq)
                return its[::-1] if its is not None else None
            if o.kind == 'iter':
                return self.iterate(o.seq)
            if o.kind == 'rows':
                return list(o.items)
            if o.kind == 'result' and o.seq is not None:
                return list(o.seq)
        if isinstance(o, Frm) and not o.open:
            return [self.keyval(n) for n, t in o.cols]
        return None

    def unpack(self, v, n):
        if isinstance(v, Alt):
            v = self.i.prune(v)
            if isinstance(v, Alt):
                a = self.unpack(v.a, n)
                b = self.unpack(v.b, n)
                if a is not None and b is not None and len(a) == len(b):
                    return [Alt(v.c, x, y) if not (isinstance(x, S) and isinstance(y, S)) else S(g(v.c, x.t, y.t), x.k if x.k == y.k else None)
                            for x, y in zip(a, b)]
                return None
        its = self.iterate(v)
        if its is not None:
            return its
        o = self.d(v)
        if n is not None:
            if isinstance(o, Lib) and o.kind == 'symvec':
                return [S(app('item', o.t, num(k)), getattr(o, 'elem', None)) for k in range(n)]
            if isinstance(o, S):
                return [S(app('item', o.t, num(k))) for k in range(n)]
            if isinstance(o, Ser) and o.kind in ('array', 'list'):
                return [self.i.pd.elem(o, S(num(k))) for k in range(n)]
        return None

    # -- context managers ---------------------------------------------------------------

    def enter(self, v):
        o = self.d(v)
        if isinstance(o, Lib) and o.kind == 'file':
            self.i.event('enter_file', o.uid)
            return v
        if isinstance(o, Lib):
            return v
        if isinstance(o, Obj):
            m = o.cls.lookup('__enter__')
            if m is not None:
                return self.i.call_fn(m.bind(v), [], {})
        return v

    def exit(self, v):
        o = self.d(v)
        if isinstance(o, Lib) and o.kind == 'file':
            self.i.event('close', o.uid)
        if isinstance(o, Obj):
            m = o.cls.lookup('__exit__')
            if m is not None:
                n = S(NONE, 'none')
                self.i.call_fn(m.bind(v), [n, n, n], {})

    # -- axis helpers ------------------------------------------------------------

    def axis_of_len(self, t):
        if t.op == 'num':
            return ax('range', t)
        r = TM.N(t, None)
        k = r.key if isinstance(r, TM.Rat) else None
        if k in self.lenaxis:
            return self.lenaxis[k]
        return ax('range', t)

    def length(self, axis):
        t = self.i.pd.axlen(axis)
        r = TM.N(t, None)
        while axis.args[0] == 'labelled':
            axis = axis.args[1]
        if isinstance(r, TM.Rat):
            self.lenaxis[r.key] = axis
        return t

    # -- calls ---------------------------------------------------------------------

    def call_method(self, recv, name, args, kwargs):
        from .interp import AltH
        if isinstance(recv, Alt) or (isinstance(recv, Ref) and isinstance(self.d(recv), AltH)):
            return self.dist(lambda x: self.call_method(x, name, args, kwargs), recv)
        i = self.i
        o = self.d(recv)
        cn = clsname(o)
        if cn:
            i.note_api('call', cn, name, (len(args), tuple(sorted(kwargs))))
        if isinstance(o, (Ser, Idx, Frm, Tab)):
            return i.pd.call_method(recv, o, name, args, kwargs)
        if isinstance(o, Lib):
            return self.lib_method(recv, o, name, args, kwargs)
        if isinstance(o, S):
            if o.k == 'str':
                return self.str_method(o, name, args, kwargs)
            if o.k == 'ts':
                return i.pd.ts_method(o, name, args, kwargs)
            if o.k == 'td':
                if name == 'total_seconds':
                    return S(o.t)
                return i.unsup('Timedelta.%s' % name)
            if o.k == 'date':
                if name == 'isoformat':
                    return S(app('iso', o.t), 'str')
                return i.unsup('date.%s' % name)
            if name == 'copy' or name == 'item':
                return o
            if name in ('clip',):
                return self.clip(recv, args, kwargs)
            if name in ('mean', 'sum', 'min', 'max', 'any', 'all') and not args:
                return o
            if name == 'round':
                return self.round_(o, args)
            if name == 'is_integer':
                return S(cmp('eq', o.t, fn('floor', o.t)), 'bool')
            if o.k is None and name in ('split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace'):
                return self.str_method(S(o.t, 'str'), name, args, kwargs)
            return S(app('method.' + name, o.t, *[a.t if isinstance(a, S) else opq('object') for a in args]))
        if isinstance(o, Arr):
            return self.arr_method(recv, o, name, args, kwargs)
        if isinstance(o, Lst):
            return self.list_method(recv, o, name, args, kwargs)
        if isinstance(o, Tup):
            if name == 'index' or name == 'count':
                return i.unsup('tuple.%s' % name)
        if isinstance(o, Dct):
            return self.dict_method(recv, o, name, args, kwargs)
        if isinstance(o, Symo):
            if name in ('append', 'extend', 'update', 'pop', 'insert', 'sort', 'clear', 'setdefault', 'remove'):
                self.mutate(recv, name)
            return S(app('method.' + name, o.t, *[a.t if isinstance(a, S) else opq('object') for a in args]))
        if isinstance(o, Opq):
            return o
        return i.unsup('method %s of %s' % (name, type(o).__name__))

    def list_method(self, recv, o, name, args, kwargs):
        i = self.i
        if name == 'append':
            self.mutate(recv, 'append')
            i.store(recv, o.with_(items=o.items + (args[0],)))
            return S(NONE, 'none')
        if name == 'extend':
            its = self.iterate(args[0])
            self.mutate(recv, 'extend')
            if its is None:
                return i.unsup('extend by unknown sequence')
            i.store(recv, o.with_(items=o.items + tuple(its)))
            return S(NONE, 'none')
        if name == 'insert':
            k = self.intval(args[0])
            self.mutate(recv, 'insert')
            if k is None:
                return i.unsup('insert')
            items = list(o.items)
            items.insert(k, args[1])
            i.store(recv, o.with_(items=items))
            return S(NONE, 'none')
        if name == 'pop':
            self.mutate(recv, 'pop')
            k = self.intval(args[0]) if args else -1
            if k is None or not o.items:
                return i.unsup('pop')
            items = list(o.items)
            v = items.pop(k)
            i.store(recv, o.with_(items=items))
            return v
        if name == 'copy':
            return self.new(Lst(o.items))
        if name == 'reverse':
            self.mutate(recv, 'reverse')
            i.store(recv, o.with_(items=o.items[::-1]))
            return S(NONE, 'none')
        if name in ('sort', 'clear', 'remove'):
            self.mutate(recv, name)
            if name == 'clear':
                i.store(recv, o.with_(items=()))
                return S(NONE, 'none')
            if name == 'sort' and not kwargs:
                ks = [self.dictkey(x) for x in o.items]
                if None not in ks:
                    try:
                        i.store(recv, o.with_(items=[x for _, x in sorted(zip(ks, o.items), key=lambda z: z[0])]))
                        return S(NONE, 'none')
                    except TypeError:
                        pass
            i.store(recv, o.with_(items=[Opq('list.%s' % name)] * len(o.items)))
            return i.unsup('list.%s' % name)
        if name == 'index':
            for k, x in enumerate(o.items):
                c = self.truth(self.compare('eq', args[0], x))
                if c is TRUE:
                    return S(num(k), 'int')
                if c is not FALSE:
                    break
            return i.unsup('list.index')
        if name == 'count':
            return i.unsup('list.count')
        return i.unsup('list.%s' % name)

    def dict_method(self, recv, o, name, args, kwargs):
        i = self.i
        if name.startswith('dict.'):
            name = name[5:]
        if name == '__init__':
            return self.call_ext('dict.__init__', [recv] + list(args), kwargs)
        if name in ('keys', 'values', 'items'):
            if name == 'keys':
                its = [self.keyval(k) for k, v in o.items]
            elif name == 'values':
                its = [v for k, v in o.items]
            else:
                its = [Tup([self.keyval(k), v]) for k, v in o.items]
            return Lib('dictview', items=its, what=name, open=o.open, cls='dict_' + name)
        if name == 'get':
            key = self.dictkey(args[0])
            default = args[1] if len(args) > 1 else kwargs.get('default', S(NONE, 'none'))
            if key is None:
                return i.unsup('dict.get key')
            v = o.get(key)
            if v is not None:
                return v
            if o.open:
                c = sym('has:%s[%s]' % (o.open, key), 'obj')
                x = S(sym('%s[%s]' % (o.open, key), 'obj'))
                if isinstance(default, S):
                    return S(g(c, x.t, default.t))
                return Alt(c, x, default)
            return default
        if name == 'update':
            self.mutate(recv, 'update')
            for a in args:
                ao = self.d(a)
                if isinstance(ao, Dct):
                    for k, v in ao.items:
                        o = o.set(k, v)
                    if ao.open:
                        o = o.with_(open=ao.open)
                elif isinstance(ao, Symo) or isinstance(ao, S):
                    # unknown mapping: every entry may come from it
                    t = ao.t
                    o = Dct(tuple((k, S(app('entry', t, k, v.t if isinstance(v, S) else opq('object')), None)) for k, v in o.items),
                            o.origin, o.attr, o.cls, o.open)
                else:
                    i.unsup('dict.update')
            for k, v in kwargs.items():
                o = o.set(k, v)
            i.store(recv, o)
            return S(NONE, 'none')
        if name == 'copy':
            return self.new(Dct(o.items, open=o.open))
        if name == 'pop':
            key = self.dictkey(args[0])
            self.mutate(recv, 'pop')
            v = o.get(key)
            i.store(recv, o.with_(items=tuple((n, x) for n, x in o.items if n != key)))
            if v is None:
                if len(args) > 1:
                    return args[1]
                i.event('nokey', str(key))
                from .interp import Dead
                raise Dead('key')
            return v
        if name == 'setdefault':
            key = self.dictkey(args[0])
            v = o.get(key)
            if v is not None:
                return v
            self.mutate(recv, 'setdefault')
            v = args[1] if len(args) > 1 else S(NONE, 'none')
            i.store(recv, o.set(key, v))
            return v
        if name == 'clear':
            self.mutate(recv, 'clear')
            i.store(recv, o.with_(items=()))
            return S(NONE, 'none')
        return i.unsup('dict.%s' % name)

    def lib_method(self, recv, o, name, args, kwargs):
        i = self.i
        if o.kind == 'file':
            i.event('filemethod', (o.uid, name, tuple(args)))
            if name == 'close':
                i.event('close', o.uid)
                return S(NONE, 'none')
            if name == 'write':
                i.pd.written(o, args)
                return S(sym('nbytes', 'int'), 'int')
            if name == 'writelines':
                its = self.iterate(args[0])
                for x in its or [None]:
                    i.pd.written(o, [x])
                return S(NONE, 'none')
            if name in ('readlines', 'read', 'readline') and i.pd.vfile(o) is not None:
                ls, more = i.pd.vfile(o).lines()
                if not more and name == 'readlines':
                    return self.new(Lst([S(string(x + '\n'), 'str') for x in ls]))
                if not more and name == 'read':
                    return S(string(''.join(x + '\n' for x in ls)), 'str')
                if name != 'readlines':
                    i.unsup('%s of a known file' % name)
            if name == 'read':
                t = i.pd.file_tree(o)
                if t is not None:
                    return i.pd.jsontext(t)
                return S(app('filetext', o.path), 'str')
            if name in ('readline',):
                return S(app('fileline', o.path), 'str')
            if name == 'readlines':
                return Lib('symvec', t=app('filelines', o.path), cls='list', elem='str')
            return S(NONE, 'none')
        if o.kind in ('groupby', 'resampler', 'rolling'):
            return i.pd.group_method(o, name, args, kwargs)
        if o.kind == 'tabindex':
            if name in ('droplevel', 'copy', 'rename', 'set_names', 'astype'):
                return o
            return i.unsup('tabindex.%s' % name)
        if o.kind == 'jsonobj' and name not in dir(dict):
            i.event('badcall', 'dict has no method %s' % name)
            from .interp import Dead
            raise Dead('dict.%s' % name)
        if o.kind == 'gframe':
            return i.pd.gframe_method(o, name, args, kwargs)
        if o.kind in ('loc', 'iloc', 'at', 'iat'):
            return i.unsup('indexer method')
        if o.kind == 'columns':
            return i.pd.columns_method(recv, o, name, args, kwargs)
        if o.kind == 'set':
            return i.unsup('set.%s' % name)
        if o.kind == 'noop':
            return S(NONE, 'none')
        if o.kind == 'symvec':
            if name == 'copy':
                return o
            return i.unsup('list.%s' % name)
        if o.kind == 'dictview':
            return i.unsup('dict view method')
        if o.kind == 'rows':
            if name == 'copy':
                return o
            return i.unsup('array.%s' % name)
        if o.kind == 'symlist':
            return i.loops.symlist_method(recv, o, name, args, kwargs)
        if o.kind == 'dt':
            return i.pd.dt_method(o, name, args, kwargs)
        if o.kind == 'strbuf':
            return S(app('bufmethod', name), 'str')
        return i.unsup('%s.%s' % (o.kind, name))

    def arr_method(self, recv, o, name, args, kwargs):
        i = self.i
        whole = [(TRUE, list(range(len(o.cells))))]
        if name in ('copy', 'ravel', 'flatten', 'squeeze'):
            if name == 'copy':
                return self.new(Arr(o.shape, o.cells))
            if name == 'squeeze':
                return self.arr_view(self.new(Arr([n for n in o.shape if n != 1], o.cells)), recv, whole)
            r = self.new(Arr((len(o.cells),), o.cells))
            return self.arr_view(r, recv, whole) if name == 'ravel' else r
        if name == 'tolist':
            return self.nested_list(o.shape, o.cells)
        if name in ('transpose', 'swapaxes') and not kwargs:
            its = args[0].items if len(args) == 1 and isinstance(args[0], Tup) else args
            ks = [self.intval(x) for x in its]
            n = len(o.shape)
            if None not in ks:
                ks = [k % n if n else k for k in ks]
                if name == 'swapaxes' and len(ks) == 2:
                    order = list(range(n))
                    order[ks[0]], order[ks[1]] = ks[1], ks[0]
                    return self.permuted(o, order)
                if name == 'transpose' and (not ks or sorted(ks) == list(range(n))):
                    return self.permuted(o, ks or list(range(n))[::-1])
        if name == 'astype':
            return self.astype(recv, args, kwargs)
        if name in ('sum', 'mean', 'min', 'max', 'any', 'all', 'prod', 'cumsum', 'std', 'argmax', 'argmin'):
            return self.arr_reduce(o, name, args, kwargs)
        if name == 'clip':
            return self.clip(recv, args, kwargs)
        if name == 'reshape':
            dims = args[0].items if len(args) == 1 and isinstance(args[0], Tup) else args
            ds = [self.intval(x) for x in dims]
            if None in ds:
                return i.unsup('reshape')
            n = 1
            for x in ds:
                if x >= 0:
                    n *= x
            ds = [x if x >= 0 else len(o.cells) // n for x in ds]
            return self.arr_view(self.new(Arr(ds, o.cells)), recv, whole)
        if name == 'fill':
            self.mutate(recv, 'fill')
            self.arr_store(recv, o.with_(cells=[args[0].t] * len(o.cells)))
            return S(NONE, 'none')
        if name == 'item':
            if len(o.cells) == 1:
                return S(o.cells[0])
        if name == 'round':
            return self.map1(lambda t: self.round_t(t, args), recv)
        if name in ('sort', 'put', 'partition', 'resize', 'itemset', 'byteswap', 'setfield', 'setflags'):
            self.mutate(recv, name)
            self.arr_store(recv, o.with_(cells=[opq('ndarray.%s' % name)] * len(o.cells)))
        return i.unsup('ndarray.%s' % name)

    def nested_list(self, shape, cells):
        if len(shape) == 0:
            return S(cells[0])
        n = shape[0]
        m = len(cells) // n if n else 0
        return self.new(Lst([self.nested_list(shape[1:], cells[k * m:(k + 1) * m]) for k in range(n)]))

    def arr_reduce(self, o, name, args, kwargs):
        axis = args[0] if args else kwargs.get('axis')
        cells = list(o.cells)

        def red(cs):
            if name == 'sum':
                return add(*cs) if cs else ZERO
            if name == 'mean':
                return div(add(*cs), num(len(cs)))
            if name == 'any':
                return lor(*[self.truth(S(c)) for c in cs])
            if name == 'all':
                return land(*[self.truth(S(c)) for c in cs])
            if name in ('min', 'max'):
                r = cs[0]
                for c in cs[1:]:
                    if r.op == 'num' and c.op == 'num':
                        r = num((min if name == 'min' else max)(r.args[0], c.args[0]))
                    else:
                        r = g(cmp('lt' if name == 'min' else 'gt', c, r), c, r)
                return r
            if name == 'prod':
                return mul(*cs)
            return None
        if name == 'cumsum' and len(o.shape) == 1:
            out, acc = [], ZERO
            for c in cells:
                acc = add(acc, c)
                out.append(acc)
            return self.new(Arr(o.shape, out))
        if axis is None or (isinstance(axis, S) and axis.t is NONE):
            r = red(cells)
            if r is None:
                return self.i.unsup('ndarray.%s' % name)
            return S(r, 'bool' if name in ('any', 'all') else None)
        a = self.intval(axis)
        if a is None:
            return self.i.unsup('reduction axis')
        a %= len(o.shape)
        st = self.strides(o.shape)
        if name == 'cumsum':
            out = list(cells)
            for p in range(len(cells)):
                if (p // st[a]) % o.shape[a]:
                    out[p] = add(out[p - st[a]], cells[p])
            return self.new(Arr(o.shape, out))
        shape = o.shape[:a] + o.shape[a + 1:]
        out = []
        for p in range(len(cells)):
            if (p // st[a]) % o.shape[a] == 0:
                out.append(red([cells[p + k * st[a]] for k in range(o.shape[a])]))
        if any(x is None for x in out):
            return self.i.unsup('ndarray.%s' % name)
        return self.new(Arr(shape, out)) if shape else S(out[0])

    def clip_t(self, t, lo, hi):
        if lo is not None and lo is not NONE:
            t0 = t
            t = g(cmp('lt', t0, lo), lo, t0)
        if hi is not None and hi is not NONE:
            t1 = t
            t = g(cmp('gt', t1, hi), hi, t1)
        return t

    def clip(self, v, args, kwargs):
        args = list(args)
        lo = args[0] if args else None
        hi = args[1] if len(args) > 1 else None
        for k, x in kwargs.items():
            if k in ('min', 'lower', 'a_min'):
                lo = x
            elif k in ('max', 'upper', 'a_max'):
                hi = x

        def term(x):
            if x is None:
                return None
            if isinstance(x, S):
                return None if x.t is NONE else x.t
            return False
        l, h = term(lo), term(hi)
        if l is False or h is False:
            return self.i.pd.clip_vec(v, lo, hi)
        return self.map1(lambda t: self.clip_t(t, l, h), v)

    def round_t(self, t, args):
        nd = 0
        if args and isinstance(args[0], S):
            n = self.intval(args[0])
            if n is None and args[0].t is not NONE:
                return opq('round to unknown digits')
            nd = n or 0
        if nd == 0:
            return fn('round', t)
        p = num(Fraction(10) ** nd)
        return div(fn('round', mul(t, p)), p)

    def round_(self, o, args):
        return S(self.round_t(o.t, args), 'int' if not args else None)

    def astype(self, v, args, kwargs):
        ty = args[0] if args else kwargs.get('dtype')
        o = self.d(v)
        name = None
        if isinstance(ty, Ext):
            name = ty.path.split('.')[-1]
        elif isinstance(ty, S) and ty.t.op == 'str':
            name = ty.t.args[0]
        if name is None:
            return self.i.unsup('astype')
        if name.startswith('int') or name.startswith('uint'):
            def f(t):
                if t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull'):
                    return g(t, ONE, ZERO)
                if t.op == 'nan':
                    self.i.event('raise', 'ValueError')
                    from .interp import Dead
                    raise Dead('missing values converted to integers')
                return fn('trunc', t)
        elif name.startswith('float') or name in ('double', 'object', 'O'):
            def f(t):
                if t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull') and name[0] == 'f':
                    return g(t, ONE, ZERO)
                return t
        elif name.startswith('bool'):
            def f(t):
                if t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull', 'sym', 'app'):
                    return t
                if t.op == 'g':
                    return lor(land(t.args[0], f(t.args[1])), land(lnot(t.args[0]), f(t.args[2])))
                if t.op == 'num':
                    return boolean(t.args[0] != 0)
                if t.op == 'nan':
                    return TRUE
                return lnot(cmp('eq', t, ZERO))
        elif name.startswith('str'):
            def f(t):
                return app('str', t)
        else:
            return self.i.unsup('astype(%s)' % name)
        r = self.map1(f, v)
        if isinstance(o, Ser):
            ro = self.d(r)
            if isinstance(ro, Ser):
                self.i.store(r, ro.with_(kind=o.kind))
        return r

    # -- external functions -----------------------------------------------------------

    def call_ext(self, path, args, kwargs):
        i = self.i
        i.note_api('callext', path, '', (len(args), tuple(sorted(k for k in kwargs))))
        head, _, last = path.rpartition('.')
        if head == '':
            m = getattr(self, 'b_' + path, None)
            if m is not None:
                return m(args, kwargs)
            if path in EXC:
                return Opq('exception object')
            return i.unsup('builtin %s' % path)
        name = 'f_' + path.replace('.', '_')
        m = getattr(self, name, None) or getattr(i.pd, name, None)
        if m is not None:
            return self.call_dist(m, args, kwargs)
        if head in ('numpy', 'math'):
            r = self.call_dist(lambda a, k: self.np_generic(last, a, k), args, kwargs)
            if r is not None:
                return r
        if head.startswith('numpy.random') or path.startswith('random.') or path.startswith('numpy.random'):
            return self.random_call(path, args, kwargs)
        return self.other_ext(path, args, kwargs)

    def call_dist(self, m, args, kwargs):
        """call a model after resolving alternatives among the arguments"""
        keys = list(kwargs)
        vals = list(args) + [kwargs[k] for k in keys]

        def f(*vs):
            return m(list(vs[:len(args)]), dict(zip(keys, vs[len(args):])))
        return self.dist(f, *vals)

    SIDE = {
        'os.remove': 'delete', 'os.unlink': 'delete', 'os.rmdir': 'delete', 'shutil.rmtree': 'delete', 'os.rename': 'rename',
        'os.replace': 'rename', 'shutil.move': 'rename', 'shutil.copy': 'write', 'shutil.copyfile': 'write', 'os.makedirs': 'write',
        'os.mkdir': 'write', 'os.system': 'process', 'subprocess.run': 'process', 'subprocess.call': 'process',
        'subprocess.Popen': 'process', 'subprocess.check_output': 'process', 'subprocess.check_call': 'process',
        'tempfile.mkstemp': 'write', 'tempfile.NamedTemporaryFile': 'write', 'tempfile.TemporaryFile': 'write',
        'os.chdir': 'global', 'os.putenv': 'global', 'numpy.seterr': 'global', 'pandas.set_option': 'global',
        'numpy.set_printoptions': 'global', 'warnings.filterwarnings': 'global', 'warnings.simplefilter': 'global',
        'locale.setlocale': 'global', 'pandas.options': 'global', 'pandas.reset_option': 'global', 'os.listdir': 'listdir',
        'os.scandir': 'listdir', 'os.walk': 'listdir', 'glob.glob': 'listdir', 'glob.iglob': 'listdir',
        'numpy.savetxt': 'write', 'numpy.save': 'write', 'numpy.savez': 'write', 'os.truncate': 'write',
        'numpy.loadtxt': 'read', 'numpy.load': 'read', 'numpy.genfromtxt': 'read', 'time.time': 'clock',
        'datetime.datetime.now': 'clock', 'datetime.date.today': 'clock', 'pandas.Timestamp.now': 'clock',
        'datetime.datetime.utcnow': 'clock', 'pandas.Timestamp.today': 'clock', 'time.perf_counter': 'clock',
        'uuid.uuid4': 'rand', 'os.urandom': 'rand', 'secrets.randbelow': 'rand',
    }

    def other_ext(self, path, args, kwargs):
        i = self.i
        kind = self.SIDE.get(path)
        if kind is not None:
            i.event('effect', (kind, path, tuple(args)))
            if kind == 'rand':
                i.event('rand', path)
            return S(app('call.' + path, *[a.t for a in args if isinstance(a, S)]))
        if path in ('numpy.errstate', 'warnings.catch_warnings', 'contextlib.suppress', 'contextlib.closing', 'contextlib.ExitStack',
                    'pandas.option_context', 'numpy.printoptions'):
            if path == 'contextlib.closing':
                return args[0]
            return Lib('context', cls=None)
        if path in ('warnings.warn', 'logging.info', 'logging.warning', 'logging.debug', 'logging.error', 'gc.collect', 'time.sleep'):
            return S(NONE, 'none')
        if path in ('logging.getLogger',):
            return Lib('noop')
        if path == 'collections.OrderedDict' or path == 'collections.defaultdict':
            return self.b_dict(args, kwargs)
        if path == 'functools.partial':
            return Lib('partial', f=args[0], args=args[1:], kwargs=kwargs)
        if path in ('functools.wraps',):
            return Lib('identity')
        if path == 'functools.reduce':
            its = self.iterate(args[1])
            if its is not None:
                acc = args[2] if len(args) > 2 else its.pop(0)
                for x in its:
                    acc = i.call(args[0], [acc, x], {})
                return acc
        if path.startswith('operator.'):
            op = path.split('.')[1]
            m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'mod': 'Mod'}.get(op)
            if m and len(args) == 2:
                return self.binop(m, *args)
            if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(args) == 2:
                return self.compare(op, *args)
        if path == 'itertools.chain':
            its = [self.iterate(a) for a in args]
            if all(x is not None for x in its):
                return self.new(Lst([y for x in its for y in x]))
        if path == 'itertools.product':
            import itertools
            its = [self.iterate(a) for a in args]
            if all(x is not None for x in its) and not kwargs:
                return self.new(Lst([Tup(z) for z in itertools.product(*its)]))
        if path == 'itertools.accumulate' and len(args) == 1:
            its = self.iterate(args[0])
            if its is not None:
                out, acc = [], None
                for x in its:
                    acc = x if acc is None else self.binop('Add', acc, x)
                    out.append(acc)
                return self.new(Lst(out))
        if path in CHANGING and args and isinstance(args[0], Ref):
            self.mutate(args[0], path)
        return i.unsup('call of %s' % path)

    # -- random numbers ------------------------------------------------------------

    def random_call(self, path, args, kwargs):
        i = self.i
        name = path.split('.')[-1]
        i.event('rand', path)
        if path in CHANGING and args and isinstance(args[0], Ref):
            self.mutate(args[0], path)
            return i.unsup('call of %s' % path)
        if path in ('numpy.random.seed', 'random.seed', 'numpy.random.set_state', 'numpy.random.default_rng', 'numpy.random.RandomState',
                    'numpy.random.Generator', 'numpy.random.get_state'):
            i.event('effect', ('seed', path, tuple(args)))
            if name in ('seed', 'set_state'):
                return S(NONE, 'none')
            return Lib('rng', cls=None)
        tag = i.loops.draw_name(name)
        uniform = name in ('random', 'random_sample', 'rand', 'ranf', 'sample')
        size = None
        if name == 'rand' and args:
            size = args[0] if len(args) == 1 else False
        elif name in ('random', 'random_sample', 'ranf', 'sample'):
            size = args[0] if args else kwargs.get('size')
        else:
            size = kwargs.get('size')
        params = [a.t if isinstance(a, S) else opq('argument') for a in args] if not uniform else []
        for k, v in sorted(kwargs.items()):
            if k != 'size' and isinstance(v, S):
                params.append(v.t)
        if size is False:
            return i.unsup('random matrix')
        if size is not None and not (isinstance(size, S) and size.t is NONE):
            so = self.d(size)
            n = None
            axis = None
            if isinstance(so, Shape):
                axis = so.axis
            elif isinstance(so, Tup) and len(so.items) == 1:
                n = so.items[0].t
            elif isinstance(so, S):
                n = so.t
            if axis is None and n is None:
                return i.unsup('random array')
            k = self.intval(S(n)) if n is not None else None
            if k is not None and k <= 64:
                cells = [self.draw(tag + '_%d' % j, uniform, name, params) for j in range(k)]
                return self.new(Arr((k,), cells))
            axis = axis or self.axis_of_len(n)
            t = col('rand', tag)
            if not uniform:
                t = app('rand.' + name, t, *params)
            return self.new(Ser(axis, t, 'array'))
        return S(self.draw(tag, uniform, name, params), 'float')

    def draw(self, tag, uniform, name, params):
        t = self.i.loops.draw_term(tag)
        if not uniform:
            t = app('rand.' + name, t, *params)
        return t

    # -- builtins ----------------------------------------------------------------------

    def b_len(self, args, kwargs):
        def f(v):
            o = self.d(v)
            if isinstance(o, (Tup, Lst)):
                if any(isinstance(x, Splice) for x in o.items):
                    return self.i.unsup('length of a collected list')
                return S(num(len(o.items)), 'int')
            if isinstance(o, Dct):
                if o.open:
                    return S(app('len', sym(o.open, 'obj')), 'int')
                return S(num(len(o.items)), 'int')
            if isinstance(o, Arr):
                return S(num(o.shape[0]), 'int')
            if isinstance(o, (Ser, Idx, Frm)):
                return S(self.length(o.axis), 'int')
            if isinstance(o, Tab):
                return S(app('len', o.rows), 'int')
            if isinstance(o, S) and o.t.op == 'str':
                return S(num(len(o.t.args[0])), 'int')
            if isinstance(o, S):
                return S(app('len', o.t), 'int')
            if isinstance(o, Lib):
                if o.kind == 'filegen':
                    return S(o.n, 'int')
                if o.kind == 'filtered':
                    return S(app('sum', o.lo, o.hi, lam(o.var, g(o.cond, ONE, ZERO))), 'int')
                if o.kind == 'symvec' and o.t.op == 'app' and o.t.args[0] == 'filelines':
                    fl = self.i.pd.vfile(S(o.t.args[1], 'str'))
                    if fl is not None:
                        return S(fl.total(), 'int')
                its = self.iterate(v)
                if its is not None:
                    return S(num(len(its)), 'int')
                if o.kind == 'range':
                    if o.step is ONE:
                        return S(sub(o.hi, o.lo), 'int')
                if o.kind == 'symlist':
                    return S(o.n, 'int')
                if hasattr(o, 't'):
                    return S(app('len', o.t), 'int')
                if o.kind == 'columns':
                    return S(app('ncols', string(str(o.frame.open)), *[string(str(n)) for n, t in o.frame.cols]), 'int')
            if isinstance(o, Symo):
                return S(app('len', o.t), 'int')
            if isinstance(o, Opq):
                return o
            if isinstance(o, Obj):
                m = o.cls.lookup('__len__')
                if m is not None:
                    return self.i.call_fn(m.bind(v), [], {})
            return self.i.unsup('len')
        return self.dist(f, args[0])

    def b_range(self, args, kwargs):
        ts = []
        for a in args:
            if not isinstance(a, S):
                if isinstance(a, Opq):
                    return a
                return self.i.unsup('range')
            ts.append(a.t)
        if len(ts) == 1:
            lo, hi, st = ZERO, ts[0], ONE
        elif len(ts) == 2:
            lo, hi, st = ts[0], ts[1], ONE
        else:
            lo, hi, st = ts
        return Lib('range', lo=lo, hi=hi, step=st, cls='range')

    def b_enumerate(self, args, kwargs):
        st = args[1] if len(args) > 1 else kwargs.get('start', S(ZERO, 'int'))
        return Lib('enumerate', seq=args[0], start=st.t, cls=None)

    def b_zip(self, args, kwargs):
        return Lib('zip', parts=list(args), cls=None)

    def b_reversed(self, args, kwargs):
        o = self.d(args[0])
        if isinstance(o, Lib) and o.kind == 'range' and o.step is ONE:
            return Lib('range', lo=sub(o.hi, ONE), hi=sub(o.lo, ONE), step=num(-1), cls='range')
        return Lib('reversed', seq=args[0], cls=None)

    def b_iter(self, args, kwargs):
        return Lib('iter', seq=args[0], cls=None)

    def b_next(self, args, kwargs):
        its = self.iterate(args[0])
        if its:
            return its[0]
        if its is not None and len(args) > 1:
            return args[1]
        o = self.d(args[0])
        if isinstance(o, Lib) and o.kind == 'condlist':
            val = args[1] if len(args) > 1 else None
            for c, v in reversed(o.items):
                if val is None:
                    val = v
                else:
                    w = val
                    val = self.i.split(c, lambda v=v: v, lambda w=w: w)
            if val is not None:
                return val
        return self.i.unsup('next')

    def b_list(self, args, kwargs):
        if not args:
            return self.new(Lst(()))
        its = self.iterate(args[0])
        if its is not None:
            return self.new(Lst(its))
        o = self.d(args[0])
        if isinstance(o, Lib) and o.kind in ('zip', 'enumerate'):
            return o
        if isinstance(o, Ser):
            return self.new(Ser(o.axis, o.t, 'list'))
        if isinstance(o, Idx):
            return args[0]
        if isinstance(o, Lib) and o.kind in ('symvec', 'symlist', 'columns', 'range'):
            return o
        if isinstance(o, Frm):
            return self.i.pd.getattr(args[0], o, 'columns')
        if isinstance(o, S):
            return Lib('symvec', t=app('list', o.t), cls='list')
        if isinstance(o, Opq):
            return o
        if isinstance(o, Lib) and o.kind == 'file':
            return Lib('symvec', t=app('filelines', o.path), cls='list', elem='str')
        return self.i.unsup('list()')

    def b_tuple(self, args, kwargs):
        if not args:
            return Tup(())
        its = self.iterate(args[0])
        if its is not None:
            return Tup(its)
        return self.b_list(args, kwargs)

    def b_set(self, args, kwargs):
        if not args:
            return Lib('set', items=(), cls='set')
        its = self.iterate(args[0])
        if its is not None:
            return Lib('set', items=tuple(its), cls='set')
        o = self.d(args[0])
        if isinstance(o, (Ser, Idx)):
            return args[0]
        if isinstance(o, Lib) and o.kind == 'columns':
            return o
        return self.i.unsup('set()')

    b_frozenset = b_set

    def b_dict(self, args, kwargs):
        d = Dct(())
        if args:
            o = self.d(args[0])
            if isinstance(o, Dct):
                d = Dct(o.items, open=o.open)
            elif isinstance(o, Symo):
                d = Dct((), open=str(o.t.args[0]))
            else:
                its = self.iterate(args[0])
                if its is None:
                    if isinstance(o, S) and o.t.op == 'sym':
                        d = Dct((), open=o.t.args[0])
                    else:
                        return self.i.unsup('dict()')
                else:
                    for p in its:
                        kv = self.unpack(p, 2)
                        k = self.dictkey(kv[0]) if kv else None
                        if k is None:
                            return self.i.unsup('dict()')
                        d = d.set(k, kv[1])
        for k, v in kwargs.items():
            if k.startswith('**'):
                d = d.with_(open=k[2:])
            else:
                d = d.set(k, v)
        return self.new(d)

    def f_dict___init__(self, args, kwargs):
        ref = args[0]
        tmp = self.d(self.b_dict(args[1:], kwargs))
        o = self.d(ref)
        if isinstance(tmp, Dct):
            for k, v in tmp.items:
                o = o.set(k, v)
            if tmp.open:
                o = o.with_(open=tmp.open)
        self.i.store(ref, o)
        return S(NONE, 'none')

    def f_object___init__(self, args, kwargs):
        return S(NONE, 'none')

    def b_str(self, args, kwargs):
        if not args:
            return S(string(''), 'str')
        v = args[0]
        c = self.const_text(v)
        if c is not None:
            return S(string(c), 'str')
        if isinstance(v, S):
            return v if v.k == 'str' else S(app('str', v.t), 'str')
        return S(app('str', opq('object')), 'str')

    b_repr = b_str

    def b_int(self, args, kwargs):
        def f(v):
            o = self.d(v)
            if isinstance(o, S):
                if o.t.op == 'str':
                    try:
                        return S(num(int(o.t.args[0])), 'int')
                    except ValueError:
                        return self.i.unsup('int()')
                if o.k == 'str':
                    return S(app('int', o.t), 'int')
                if o.t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull'):
                    return S(g(o.t, ONE, ZERO), 'int')
                if o.k == 'none':
                    self.i.event('badcall', 'int(None)')
                    from .interp import Dead
                    raise Dead('int(None)')
                return S(fn('trunc', o.t), 'int')
            if isinstance(o, Arr) and len(o.cells) == 1:
                return S(fn('trunc', o.cells[0]), 'int')
            if isinstance(o, Opq):
                return o
            return self.i.unsup('int()')
        return self.dist(f, args[0]) if args else S(ZERO, 'int')

    def b_float(self, args, kwargs):
        if not args:
            return S(ZERO, 'float')

        def f(v):
            o = self.d(v)
            if isinstance(o, S):
                if o.t.op == 'str':
                    try:
                        return S(num(float(o.t.args[0])), 'float')
                    except ValueError:
                        return self.i.unsup('float()')
                if o.k == 'str' or (o.t.op == 'app' and o.t.args[0] == 'item'):
                    return S(app('float', o.t), 'float')
                if o.t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull'):
                    return S(g(o.t, ONE, ZERO), 'float')
                return S(o.t, 'float')
            if isinstance(o, Arr) and len(o.cells) == 1:
                return S(o.cells[0], 'float')
            if isinstance(o, Opq):
                return o
            return self.i.unsup('float()')
        return self.dist(f, args[0])

    def b_bool(self, args, kwargs):
        return S(self.truth(args[0]), 'bool') if args else S(FALSE, 'bool')

    def b_abs(self, args, kwargs):
        return self.dist(lambda v: self.map1(lambda t: fn('abs', t), v), args[0])

    def b_round(self, args, kwargs):
        return self.dist(lambda v: self.map1(lambda t: self.round_t(t, args[1:]), v), args[0])

    def b_pow(self, args, kwargs):
        return self.binop('Pow', args[0], args[1])

    def b_divmod(self, args, kwargs):
        return Tup([self.binop('FloorDiv', *args), self.binop('Mod', *args)])

    def minmax(self, args, kwargs, op):
        its = list(args) if len(args) > 1 else self.iterate(args[0])
        if its is None:
            o = self.d(args[0])
            if isinstance(o, (Ser, Idx)):
                return self.i.pd.call_method(args[0], o, 'min' if op == 'lt' else 'max', [], {})
            return self.i.unsup('min/max')
        if not its or kwargs:
            return self.i.unsup('min/max')
        r = its[0]
        for x in its[1:]:
            if not (isinstance(r, S) and isinstance(x, S)):
                return self.i.unsup('min/max')
            r = S(g(cmp(op, x.t, r.t), x.t, r.t), r.k if r.k == x.k else None)
        return r

    def b_min(self, args, kwargs):
        return self.minmax(args, kwargs, 'lt')

    def b_max(self, args, kwargs):
        return self.minmax(args, kwargs, 'gt')

    def b_sum(self, args, kwargs):
        its = self.iterate(args[0])
        if its is not None:
            r = args[1] if len(args) > 1 else S(ZERO, 'int')
            for x in its:
                r = self.binop('Add', r, x)
            return r
        o = self.d(args[0])
        if isinstance(o, Ser):
            return self.i.pd.call_method(args[0], o, 'sum', [], {})
        if isinstance(o, Lib) and o.kind == 'symlist':
            return self.i.loops.symlist_sum(o)
        if isinstance(o, Lib) and o.kind == 'filegen':
            return S(o.total, 'int')
        if isinstance(o, Lib) and o.kind == 'filtered' and isinstance(o.item(o.var), S):
            return S(app('sum', o.lo, o.hi, lam(o.var, g(o.cond, o.item(o.var).t, ZERO))), o.item(o.var).k)
        if isinstance(o, Opq):
            return o
        return self.i.unsup('sum')

    def anyall(self, args, which):
        v = args[0]
        its = self.iterate(v)
        if its is not None:
            cs = [self.truth(x) for x in its]
            return S(lor(*cs) if which == 'any' else land(*cs), 'bool')
        o = self.d(v)
        if isinstance(o, Ser):
            return self.i.pd.call_method(v, o, which, [], {'skipna': S(TRUE)})
        if isinstance(o, Lib) and o.kind == 'condlist':
            cs = [land(c, self.truth(x)) if which == 'any' else lor(lnot(c), self.truth(x)) for c, x in o.items]
            return S(lor(*cs) if which == 'any' else land(*cs), 'bool')
        if isinstance(o, Opq):
            return o
        return self.i.unsup(which)

    def b_any(self, args, kwargs):
        return self.dist(lambda v: self.anyall([v], 'any'), args[0])

    def b_all(self, args, kwargs):
        return self.dist(lambda v: self.anyall([v], 'all'), args[0])

    def b_sorted(self, args, kwargs):
        its = self.iterate(args[0])
        if its is not None and not kwargs:
            ks = [self.dictkey(x) for x in its]
            if None not in ks:
                try:
                    return self.new(Lst([x for _, x in sorted(zip(ks, its), key=lambda z: z[0])]))
                except TypeError:
                    pass
        o = self.d(args[0])
        if isinstance(o, Lib) and o.kind == 'filelist':
            return Lib('filelist', pattern=o.pattern, sorted=not kwargs, cls='list')
        if isinstance(o, Opq):
            return o
        return self.i.unsup('sorted')

    def b_map(self, args, kwargs):
        its = [self.iterate(a) for a in args[1:]]
        if all(x is not None for x in its):
            return self.new(Lst([self.i.call(args[0], list(z), {}) for z in zip(*its)]))
        if len(args) == 2:
            return self.i.loops.map_over(args[1], lambda x: self.i.call(args[0], [x], {}))
        return self.i.unsup('map')

    def b_filter(self, args, kwargs):
        return self.i.unsup('filter')

    def file_items(self, v):
        """lines of a known file for a loop over it, and whether records follow"""
        o = self.d(v)
        if isinstance(o, Lib) and o.kind == 'enumerate':
            r = self.file_items(o.seq)
            if r is None:
                return None
            return [Tup([S(add(o.start, num(k)), 'int'), x]) for k, x in enumerate(r[0])], r[1]
        if isinstance(o, Lib) and o.kind == 'file' and self.i.files is not None:
            f = self.i.pd.vfile(o)
            if f is None:
                return None
            ls, more = f.lines()
            return [S(string(x + '\n'), 'str') for x in ls], more
        return None

    def b_print(self, args, kwargs):
        f = kwargs.get('file')
        fo = self.d(f) if f is not None else None
        if isinstance(fo, Lib) and fo.kind == 'file' and self.i.files is not None:
            sep = kwargs.get('sep', S(string(' '), 'str'))
            end = kwargs.get('end', S(string('\n'), 'str'))
            parts = []
            for k, x in enumerate(args):
                parts += ([sep] if k else []) + [self.format_value(x, '', -1)]
            self.i.pd.written(fo, [self.concat_str(parts + [end])])
            return S(NONE, 'none')
        self.i.event('print', tuple(args))
        return S(NONE, 'none')

    def b_id(self, args, kwargs):
        return S(sym(self.i.fresh('id'), 'int'))

    def b_callable(self, args, kwargs):
        return S(boolean(isinstance(args[0], (FnV, Ext, ClsV, Meth))), 'bool')

    def b_vars(self, args, kwargs):
        return self.getattr(args[0], '__dict__')

    def b_object(self, args, kwargs):
        return self.new(Symo(sym(self.i.fresh('object'), 'obj'), None))

    def b_hasattr(self, args, kwargs):
        name = self.dictkey(args[1])

        def f(v):
            o = self.d(v)
            if isinstance(o, Obj):
                return S(boolean(o.get(name) is not None or o.cls.lookup(name) is not None), 'bool')
            if isinstance(o, Dct) and o.attr:
                return S(boolean(o.get(name) is not None or name in dir(dict)), 'bool')
            if isinstance(o, ModV):
                return S(boolean(name in self.i.st.frames[o.env]), 'bool')
            if isinstance(o, Frm):
                return S(self.i.pd.hascol(o, name, None), 'bool')
            if isinstance(o, FnV) or isinstance(o, Lib) and o.kind == 'set':
                return S(boolean(name in dir(set if isinstance(o, Lib) else clsname)), 'bool')
            cn = clsname(o)
            if cn is not None:
                from . import api
                r = api.has(cn, name)
                if r is not None:
                    return S(boolean(r), 'bool')
            return self.i.unsup('hasattr')
        return self.dist(f, args[0])

    def b_getattr(self, args, kwargs):
        name = self.dictkey(args[1])
        if name is None:
            return self.i.unsup('getattr with unknown name')
        if len(args) > 2:
            h = self.b_hasattr(args[:2], {})
            c = self.truth(h) if isinstance(h, S) else TRUE
            return self.i.split(c, lambda: self.getattr(args[0], name), lambda: args[2])
        return self.getattr(args[0], name)

    def b_setattr(self, args, kwargs):
        name = self.dictkey(args[1])
        if name is None:
            return self.i.unsup('setattr with unknown name')
        self.setattr(args[0], name, args[2])
        return S(NONE, 'none')

    def b_super(self, args, kwargs):
        f = self.i.stack[-1]
        obj = f.self_
        cls = getattr(f, 'clsv', None)
        if args:
            cls, obj = args[0], args[1]
        if cls is None or obj is None:
            o = self.d(obj) if obj is not None else None
            cls = getattr(o, 'cls', None)
        if cls is None:
            return self.i.unsup('super()')
        return Lib('super', cls_=cls, obj=obj)

    def b_type(self, args, kwargs):
        def f(v):
            o = self.d(v)
            if isinstance(o, Obj):
                return o.cls
            if isinstance(o, Dct) and o.cls is not None:
                return o.cls
            cn = clsname(o)
            if cn is not None:
                return Ext(cn)
            if isinstance(o, S):
                return S(app('type', o.t), 'obj')
            if isinstance(o, Symo):
                return S(app('type', o.t), 'obj')
            if isinstance(o, Opq):
                return o
            if isinstance(o, FnV):
                return Ext('function')
            if isinstance(o, Lib) and o.kind == 'set':
                return Ext('set')
            return self.i.unsup('type()')
        return self.dist(f, args[0])

    CLASSES = {
        'pandas.Series': lambda o: isinstance(o, Ser) and o.kind == 'series',
        'pandas.DataFrame': lambda o: isinstance(o, (Frm, Tab)) or isinstance(o, Lib) and o.kind in ('gframe', 'bycolumns'),
        'pandas.DatetimeIndex': lambda o: isinstance(o, Idx),
        'pandas.Index': lambda o: isinstance(o, Idx) or (isinstance(o, Ser) and o.kind == 'index'),
        'pandas.MultiIndex': lambda o: isinstance(o, Lib) and o.kind == 'multiindex' or several(o),
        'numpy.ndarray': lambda o: isinstance(o, Arr) or (isinstance(o, Ser) and o.kind == 'array') or (isinstance(o, Lib) and o.kind == 'rows'),
        'list': lambda o: isinstance(o, Lst) or (isinstance(o, Ser) and o.kind == 'list') or (isinstance(o, Lib) and o.cls == 'list'),
        'tuple': lambda o: isinstance(o, Tup),
        'dict': lambda o: isinstance(o, Dct) or isinstance(o, Lib) and o.kind == 'jsonobj',
        'str': lambda o: isinstance(o, S) and o.k == 'str',
        'set': lambda o: isinstance(o, Lib) and o.kind == 'set',
        'pandas.Timestamp': lambda o: isinstance(o, S) and o.k == 'ts',
        'object': lambda o: True,
    }

    def isinst(self, v, c):
        o = self.d(v)
        if isinstance(o, Opq):
            return opq(o.why)
        if isinstance(c, Tup):
            return lor(*[self.isinst(v, x) for x in c.items])
        if isinstance(c, ClsV):
            if isinstance(o, (Obj, Dct)) and o.cls is not None:
                return boolean(self.subclass(o.cls, c))
            if isinstance(o, Symo) or (isinstance(o, S) and o.t.op in ('sym', 'app', 'opq') and o.k is None):
                return app('isinstance', o.t, string(c.name))
            return FALSE
        if isinstance(c, Ext):
            if isinstance(o, Symo):
                if o.kind == c.path:
                    return TRUE
                return app('isinstance', o.t, string(c.path))
            if isinstance(o, S) and o.k is None and o.t.op in ('sym', 'app', 'opq'):
                if o.t.op == 'sym' and 'obj' not in o.t.args[1] and c.path in self.CLASSES:
                    return FALSE
                return app('isinstance', o.t, string(c.path))
            f = self.CLASSES.get(c.path)
            if c.path == 'pandas.DatetimeIndex' and self.i.facts.get('period'):
                return FALSE
            if f is not None:
                return boolean(bool(f(o)))
            if isinstance(o, S):
                num_ = {'int': ('int',), 'float': ('float',), 'bool': ('bool',)}
                if c.path in num_:
                    if o.k in ('str', 'none', 'ts', 'td', 'date'):
                        return FALSE
                    if o.k == c.path:
                        return TRUE
                    return app('isinstance', o.t, string(c.path))
                if o.k in ('str', 'none'):
                    return FALSE
            if isinstance(o, (Ser, Frm, Arr, Lst, Tup, Dct, Tab, Idx)):
                return FALSE
        self.i.unsup('isinstance')
        return opq('isinstance')

    def subclass(self, a, b):
        if a is b:
            return True
        return any(isinstance(x, ClsV) and self.subclass(x, b) for x in a.bases)

    def b_isinstance(self, args, kwargs):
        return self.dist(lambda v: S(self.isinst(v, args[1]), 'bool'), args[0])

    def b_open(self, args, kwargs):
        path = args[0]
        mode = args[1] if len(args) > 1 else kwargs.get('mode', S(string('r'), 'str'))
        m = mode.t.args[0] if isinstance(mode, S) and mode.t.op == 'str' else '?'
        uid = self.i.fresh('file')
        pt = path.t if isinstance(path, S) else opq('path')
        self.i.event('open', (uid, m, pt))
        self.i.pd.opened(pt, m)
        return Lib('file', path=pt, mode=m, uid=uid, cls='file')

    # -- numpy ------------------------------------------------------------------------

    def np_generic(self, name, args, kwargs):
        out = kwargs.get('out')
        if out is not None and isinstance(out, Ref):
            r = self.np_generic(name, args, {k: v for k, v in kwargs.items() if k != 'out'})
            self.mutate(out, 'out of numpy.%s' % name)
            o, ro = self.d(out), self.d(r)
            if isinstance(o, Arr):
                self.arr_store(out, o.with_(cells=ro.cells if isinstance(ro, Arr) and ro.shape == o.shape else [opq('out')] * len(o.cells)))
            elif isinstance(o, Ser):
                self.i.store(out, o.with_(t=ro.t if isinstance(ro, Ser) and ro.axis is o.axis else opq('out')))
            return out
        if name in UFUNC1 and len(args) == 1 and isinstance(args[0], S) and args[0].k == 'none':
            self.i.event('badcall', '%s of None' % name)
            from .interp import Dead
            raise Dead('None operand')
        if name in UFUNC1 and len(args) == 1 and not kwargs:
            f = UFUNC1[name]
            return self.i.pd.sharing(self.ser_array(self.map1(lambda t: fn(f, t), args[0])), args[0])
        if name in UFUNC1 and len(args) == 1:
            kw = {k: v for k, v in kwargs.items() if k not in ('dtype',)}
            if not kw:
                f = UFUNC1[name]
                return self.map1(lambda t: fn(f, t), args[0])
        if name in UFUNC2 and len(args) == 2 and not kwargs:
            r = self.binop(UFUNC2[name], *args)
            if isinstance(r, Ref) and all(isinstance(x, Ref) for x in args):
                self.i.ixof.pop(r.id, None)
            return r
        if name in CMP2 and len(args) == 2:
            return self.compare(CMP2[name], *args)
        if name in ('isnan', 'isfinite') and len(args) == 1:
            r = self.map1(lambda t: isnull(t), args[0])
            if name == 'isfinite':
                return self.map1(lnot, r)
            return r
        if name in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'):
            return self.binop('BitAnd' if name.endswith('and') else 'BitOr', *args)
        if name in ('logical_not', 'invert'):
            return self.map1(lnot, args[0])
        if name in ('zeros', 'ones', 'empty', 'full'):
            return self.np_fill(name, args, kwargs)
        if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            o = self.d(args[0])
            v = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': NANT}.get(name)
            if name == 'full_like':
                v = args[1].t
            return self.map1(lambda t: v, args[0])
        if name in ('array', 'asarray', 'asanyarray', 'atleast_1d', 'ascontiguousarray'):
            if name != 'array' and len(args) == 1 and set(kwargs) <= {'dtype'} and isinstance(self.d(args[0]), Arr) and self.d(args[0]).shape:
                return args[0]
            return self.np_array(args, kwargs)
        if name == 'arange':
            return self.np_arange(args, kwargs)
        if name == 'linspace':
            ks = [self.intval(a) if j == 2 else a for j, a in enumerate(args)]
            n = ks[2] if len(ks) > 2 else self.intval(kwargs['num']) if 'num' in kwargs else 50
            if n and n > 1 and isinstance(args[0], S) and isinstance(args[1], S):
                lo, hi = args[0].t, args[1].t
                return self.new(Arr((n,), [add(lo, mul(sub(hi, lo), num(Fraction(k, n - 1)))) for k in range(n)]))
        if name in ('mean', 'sum', 'min', 'max', 'amin', 'amax', 'any', 'all', 'cumsum', 'prod', 'nanmean', 'nansum', 'nanmin', 'nanmax', 'std', 'median', 'argmax', 'argmin', 'diff'):
            return self.np_reduce(name, args, kwargs)
        if name == 'isscalar':
            o = self.d(args[0])
            return S(boolean(isinstance(o, S)), 'bool')
        if name == 'where':
            return self.np_where(args, kwargs)
        if name == 'clip':
            return self.clip(args[0], args[1:], kwargs)
        if name in ('minimum', 'maximum', 'fmin', 'fmax'):
            op = 'lt' if name in ('minimum', 'fmin') else 'gt'
            nan = name in ('minimum', 'maximum')

            def f(a, b):
                if b.op == 'num':
                    return g(cmp(op, b, a), b, a)
                if a.op == 'num':
                    return g(cmp(op, a, b), a, b)
                return g(isnull(a), a if nan else b, g(isnull(b), b if nan else a, g(cmp(op, a, b), a, b)))
            r = self.lift2(f, args[0], args[1])
            if isinstance(r, Ref) and all(isinstance(x, Ref) for x in args[:2]):
                self.i.ixof.pop(r.id, None)
            return r
        if name == 'percentile' or name == 'quantile' or name == 'nanpercentile':
            q = args[1] if len(args) > 1 else kwargs.get('q')
            o = self.d(args[0])
            extra = [k + '=' + (show_key(v)) for k, v in sorted(kwargs.items()) if k != 'q']
            if isinstance(o, Ser) and isinstance(q, S):
                qt = q.t if name != 'quantile' else mul(q.t, num(100))
                return S(app('percentile', self.i.pd.aggaxis(o), self.i.pd.aggterm(o), qt, *[string(x) for x in extra]))
            return self.i.unsup('percentile')
        if name == 'floor_divide':
            return self.binop('FloorDiv', *args)
        if name in ('array_equal', 'allclose', 'array_equiv'):
            return self.np_equal(args, name)
        if name in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack'):
            return self.np_concat(name, args, kwargs)
        if name in ('repeat',):
            return self.np_repeat(args, kwargs)
        if name in ('float64', 'float32', 'double'):
            return self.b_float(args, kwargs)
        if name in ('int64', 'int32', 'int_'):
            return self.b_int(args, kwargs)
        if name == 'round' or name == 'around':
            return self.map1(lambda t: self.round_t(t, args[1:]), args[0])
        if name == 'copy':
            return self.np_array(args, kwargs)
        if name in ('squeeze', 'ravel'):
            return self.call_method(args[0], name, [], {})
        if name == 'isin':
            return self.i.pd.isin(args[0], args[1])
        if name == 'interp' and len(args) == 3:
            return self.i.unsup('interp')
        if name == 'select':
            its, vs = self.iterate(args[0]), self.iterate(args[1])
            if its is not None and vs is not None:
                r = args[2] if len(args) > 2 else kwargs.get('default', S(ZERO))
                for c, v in reversed(list(zip(its, vs))):
                    r = self.np_where([c, v, r], {})
                return r
        if name == 'digitize' and len(args) >= 2:
            bins = self.iterate(args[1])
            right = kwargs.get('right', args[2] if len(args) > 2 else S(FALSE))
            if bins is not None and isinstance(right, S) and right.t.op == 'bool':
                op = 'lt' if right.t is TRUE else 'le'
                # number of bin edges below the value
                return self.map1(lambda t: add(*[g(cmp(op, b.t, t), ONE, ZERO) for b in bins]), args[0])
        if name == 'searchsorted' and len(args) >= 2:
            bins = self.iterate(args[0])
            side = kwargs.get('side', args[2] if len(args) > 2 else S(string('left')))
            if bins is not None and isinstance(side, S) and side.t.op == 'str':
                op = 'lt' if side.t.args[0] == 'left' else 'le'
                return self.map1(lambda t: add(*[g(cmp(op, b.t, t), ONE, ZERO) for b in bins]), args[1])
        return None

    def ser_array(self, v):
        return v

    def lift2(self, f, a, b):
        oa, ob = self.d(a), self.d(b)
        if isinstance(oa, (Ser, Idx, Frm, Tab)) or isinstance(ob, (Ser, Idx, Frm, Tab)):
            return self.i.pd.binop('Fn', f, a, b)
        if isinstance(oa, S) and isinstance(ob, S):
            return S(f(oa.t, ob.t))
        if isinstance(oa, (Arr, S)) and isinstance(ob, (Arr, S)):
            return self.arr_lift(f, a, b)
        return self.i.unsup('elementwise function')

    def np_fill(self, name, args, kwargs):
        v = {'zeros': ZERO, 'ones': ONE, 'empty': NANT}.get(name)
        if name == 'full':
            fv = args[1] if len(args) > 1 else kwargs.get('fill_value')
            if not isinstance(fv, S):
                return self.i.unsup('full')
            v = fv.t
        sh = args[0] if args else kwargs.get('shape')
        dt = kwargs.get('dtype', args[1] if len(args) > 1 and name != 'full' else None)
        if isinstance(dt, Ext) and dt.path in ('bool', 'numpy.bool_') and name == 'zeros':
            v = FALSE
        if isinstance(dt, Ext) and dt.path in ('bool', 'numpy.bool_') and name == 'ones':
            v = TRUE
        so = self.d(sh)
        if isinstance(so, Shape) and so.axis is not None:
            return self.new(Ser(so.axis, v, 'array'))
        items = list(so.items) if isinstance(so, (Tup, Lst)) else [sh]
        ds = [self.intval(x) for x in items]
        if None not in ds:
            n = 1
            for x in ds:
                n *= x
            if n <= 512:
                return self.new(Arr(ds, [v] * n))
        if len(items) == 1 and isinstance(items[0], S):
            return self.new(Ser(self.axis_of_len(items[0].t), v, 'array'))
        if isinstance(sh, Opq):
            return sh
        return self.i.unsup('array of unknown shape')

    def np_array(self, args, kwargs):
        v = args[0] if args else kwargs.get('object')
        o = self.d(v)
        if isinstance(o, Arr):
            return self.new(Arr(o.shape, o.cells))
        if isinstance(o, Ser):
            return self.new(Ser(o.axis, o.t, 'array'))
        if isinstance(o, Idx):
            return self.new(Ser(o.axis, self.i.pd.tst(o.axis), 'array'))
        if isinstance(o, (Lst, Tup)):
            a = self.to_arr(v)
            if a is not None:
                return self.new(a)
            parts = [self.d(x) for x in o.items]
            if parts and all(isinstance(p, (Ser, Idx)) for p in parts):
                rows = [self.np_array([x], {}) for x in o.items]
                return Lib('rows', items=rows, cls='numpy.ndarray')
            return self.i.unsup('array()')
        if isinstance(o, S):
            return self.new(Arr((), (o.t,))) if o.k != 'obj' else o
        if isinstance(o, Lib) and o.kind in ('range',):
            a = self.to_arr(v)
            if a is not None:
                return self.new(a)
            n = sub(o.hi, o.lo)
            if o.step is ONE:
                return self.new(Ser(self.axis_of_len(n), add(tim('pos'), o.lo), 'array'))
        if isinstance(o, Lib) and o.kind == 'symlist':
            return self.i.loops.symlist_array(o)
        if isinstance(o, Lib) and o.kind in ('rows', 'symvec'):
            return o
        if isinstance(o, Frm):
            return self.i.pd.getattr(v, o, 'values')
        if isinstance(o, Opq):
            return o
        if isinstance(o, Symo):
            return S(app('array', o.t))
        return self.i.unsup('array()')

    def np_arange(self, args, kwargs):
        ts = [a.t if isinstance(a, S) else None for a in args]
        if None in ts:
            return self.i.unsup('arange')
        lo, hi, st = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ONE) if len(ts) == 2 else ts
        if all(t.op == 'num' for t in (lo, hi, st)):
            out = []
            x = lo.args[0]
            while (x < hi.args[0] if st.args[0] > 0 else x > hi.args[0]) and len(out) < 513:
                out.append(num(x))
                x += st.args[0]
            if len(out) <= 512:
                return self.new(Arr((len(out),), out))
        if st is ONE:
            n = sub(hi, lo)
            return self.new(Ser(self.axis_of_len(n), add(tim('pos'), lo), 'array'))
        return self.i.unsup('arange')

    def np_reduce(self, name, args, kwargs):
        o = self.d(args[0])
        base = {'amin': 'min', 'amax': 'max', 'nanmean': 'mean', 'nansum': 'sum', 'nanmin': 'min', 'nanmax': 'max'}.get(name, name)
        if isinstance(o, (Ser, Idx, Frm, Tab)):
            if isinstance(o, Ser) and o.kind in ('array', 'list') and base in ('mean', 'sum', 'min', 'max') and not name.startswith('nan'):
                return self.i.pd.call_method(args[0], o, base, args[1:], kwargs)
            return self.i.pd.call_method(args[0], o, base, args[1:], kwargs)
        if isinstance(o, (Arr, Lst, Tup)):
            a = self.to_arr(args[0])
            if a is None:
                return self.i.unsup(name)
            return self.arr_reduce(a, base, args[1:], kwargs)
        if isinstance(o, S):
            return o
        if isinstance(o, Opq):
            return o
        return self.i.unsup(name)

    def np_where(self, args, kwargs):
        if len(args) == 1:
            o = self.d(args[0])
            return self.i.unsup('where(condition)')
        c, a, b = args
        oc = self.d(c)
        if isinstance(oc, Opq):
            return oc
        if isinstance(oc, S):
            return self.lift2(lambda x, y: g(oc.t, x, y), a, b)
        if isinstance(oc, Arr):
            r = self.arr_lift(lambda x, y: mk('pair', x, y), a, b) if (isinstance(self.d(a), Arr) or isinstance(self.d(b), Arr)) else \
                self.new(Arr(oc.shape, [mk('pair', self.d(a).t, self.d(b).t)] * len(oc.cells)))
            return self.arr_lift(lambda p, q: g(p, q.args[0], q.args[1]), c, r)
        if isinstance(oc, Ser):
            def arr(v):
                x = self.d(v)
                if isinstance(x, Ser):
                    return self.new(x.with_(kind='array', origin=None))
                return v
            pr = self.lift2(lambda x, y: mk('pair', x, y), arr(a), arr(b))
            return self.i.pd.binop('Fn', lambda p, q: g(p, q.args[0], q.args[1]), self.new(oc.with_(kind='array', origin=None)), pr)
        return self.i.unsup('where')

    def np_equal(self, args, name):
        a, b = self.d(args[0]), self.d(args[1])
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape != b.shape:
                return S(FALSE, 'bool')
            return S(land(*[cmp('eq', x, y) for x, y in zip(a.cells, b.cells)]), 'bool')
        if hasattr(a, 't') and hasattr(b, 't'):
            return S(app(name, a.t, b.t), 'bool')
        return self.i.unsup(name)

    def np_concat(self, name, args, kwargs):
        its = self.iterate(args[0])
        if its is None:
            return self.i.unsup(name)
        arrs = [self.to_arr(x) for x in its]
        if all(a is not None and len(a.shape) == 1 for a in arrs) and name in ('concatenate', 'hstack'):
            cells = [c for a in arrs for c in a.cells]
            return self.new(Arr((len(cells),), cells))
        if all(a is not None for a in arrs) and name in ('stack', 'vstack') and len({a.shape for a in arrs}) == 1:
            return self.new(Arr((len(arrs),) + arrs[0].shape, [c for a in arrs for c in a.cells]))
        if name in ('stack', 'vstack') and all(isinstance(self.d(x), (Ser, Idx)) for x in its):
            return Lib('rows', items=[self.np_array([x], {}) for x in its], cls='numpy.ndarray')
        return self.i.unsup(name)

    def np_repeat(self, args, kwargs):
        o = self.d(args[0])
        n = self.intval(args[1] if len(args) > 1 else kwargs.get('repeats'))
        if isinstance(o, Arr) and n is not None and len(o.shape) == 1:
            return self.new(Arr((len(o.cells) * n,), [c for c in o.cells for _ in range(n)]))
        if isinstance(o, Ser) and n is not None:
            k = self.axis_of_len(mul(self.length(o.axis), num(n)))
            if gran(o.axis) == 'P':
                return self.new(Ser(k, subst(o.t, {tim('pos'): fn('floordiv', tim('pos'), num(n))}), 'array'))
            if gran(o.axis) == 'D' and n == 24:
                return self.new(Ser(ax('hourly', o.axis), o.t, 'array'))
        return self.i.unsup('repeat')

    # -- scipy ------------------------------------------------------------------------

    def f_scipy_optimize_curve_fit(self, args, kwargs):
        i = self.i
        f = args[0] if args else kwargs['f']
        x = args[1] if len(args) > 1 else kwargs.get('xdata')
        y = args[2] if len(args) > 2 else kwargs.get('ydata')
        p0 = args[3] if len(args) > 3 else kwargs.get('p0')
        n = None
        names = []
        if isinstance(f, FnV):
            names = [a.arg for a in f.node.args.args]
            if f.self_ is not None:
                names = names[1:]
            n = len(names) - 1
        uid = i.fresh('fit')
        ps = [S(sym('%s.p%d' % (uid, k), 'nonan')) for k in range(n or 0)]
        model = i.call(f, [x] + ps, {}) if n else Opq('unknown model')
        i.event('fit', dict(kind='curve_fit', f=f, x=x, y=y, p0=p0, params=ps, model=model, names=names[1:], uid=uid, extra=sorted(kwargs)))
        popt = self.new(Arr((n,), [p.t for p in ps])) if n else Opq('curve_fit')
        return Tup([popt, S(sym(uid + '.cov', 'obj'))])

    def f_scipy_optimize_minimize(self, args, kwargs):
        i = self.i
        f = args[0] if args else kwargs['fun']
        x0 = args[1] if len(args) > 1 else kwargs.get('x0')
        its = self.iterate(x0)
        uid = i.fresh('fit')
        if its is None:
            return i.unsup('minimize start')
        ps = [S(sym('%s.p%d' % (uid, k), 'nonan')) for k in range(len(its))]
        arg = self.new(Arr((len(ps),), [p.t for p in ps]))
        model = i.call(f, [arg], {})
        i.event('fit', dict(kind='minimize', f=f, x0=x0, params=ps, model=model, uid=uid, extra=sorted(kwargs)))
        return Lib('result', fields=dict(x=self.new(Arr((len(ps),), [p.t for p in ps])), fun=S(sym(uid + '.fun')), success=S(sym(uid + '.ok', 'obj'), 'bool')),
                   seq=None, cls='scipy.optimize.OptimizeResult')

    def f_scipy_stats_linregress(self, args, kwargs):
        i = self.i
        x = args[0] if args else kwargs.get('x')
        y = args[1] if len(args) > 1 else kwargs.get('y')
        uid = i.fresh('fit')
        names = ['slope', 'intercept', 'rvalue', 'pvalue', 'stderr']
        vals = [S(sym('%s.%s' % (uid, n), 'nonan')) for n in names]
        i.event('fit', dict(kind='linregress', x=x, y=y, params=vals, uid=uid))
        return Lib('result', fields=dict(zip(names, vals)), seq=vals, cls='scipy.stats.LinregressResult')

    def f_numpy_polyfit(self, args, kwargs):
        i = self.i
        if self.intval(args[2]) == 1:
            uid = i.fresh('fit')
            vals = [S(sym('%s.%s' % (uid, n), 'nonan')) for n in ('slope', 'intercept')]
            i.event('fit', dict(kind='linregress', x=args[0], y=args[1], params=vals, uid=uid))
            return self.new(Arr((2,), [v.t for v in vals]))
        return i.unsup('polyfit')

    # -- copy, json, io ------------------------------------------------------------------

    def f_copy_copy(self, args, kwargs):
        v = args[0]
        o = self.d(v)
        if isinstance(o, (Obj, Dct)) and o.cls is not None:
            m = o.cls.lookup('__copy__')
            if m is not None:
                return self.i.call_fn(m.bind(v), [], {})
        if isinstance(v, Ref) and hasattr(o, 'origin'):
            return self.new(o.with_(origin=None))
        return v

    def f_copy_deepcopy(self, args, kwargs):
        seen = {}

        def go(v):
            if isinstance(v, Alt):
                return Alt(v.c, go(v.a), go(v.b))
            if isinstance(v, Tup):
                return Tup([go(x) for x in v.items])
            if not isinstance(v, Ref):
                return v
            if v.id in seen:
                return seen[v.id]
            o = self.d(v)
            m = o.cls.lookup('__deepcopy__') if isinstance(o, (Obj, Dct)) and o.cls is not None else None
            if m is not None:
                r = seen[v.id] = self.i.call_fn(m.bind(v), [self.new(Dct(()))], {})
                return r
            r = self.new(o.with_(origin=None) if hasattr(o, 'with_') else o)
            seen[v.id] = r
            if isinstance(o, Lst):
                self.i.store(r, Lst([go(x) for x in o.items]))
            elif isinstance(o, Dct):
                self.i.store(r, Dct([(k, go(x)) for k, x in o.items], None, o.attr, o.cls, o.open))
            elif isinstance(o, Obj):
                self.i.store(r, Obj(o.cls, tuple((k, go(x)) for k, x in o.fields)))
            return r
        return go(args[0])

    def f_glob_glob(self, args, kwargs):
        self.i.event('effect', ('listdir', 'glob.glob', tuple(args)))
        p = args[0] if args else kwargs.get('pathname')
        if self.i.files is not None and isinstance(p, S) and p.t.op == 'str' and not kwargs:
            return self.new(Lst([S(string(f), 'str') for f in self.i.pd.matching(p.t.args[0])]))
        return Lib('filelist', pattern=p.t if isinstance(p, S) else opq('pattern'), sorted=False, cls='list')

    def f_io_StringIO(self, args, kwargs):
        return Lib('strbuf', content=args[0] if args else None, cls='io.StringIO')


def several(o):
    """index with more than one level"""
    if not (isinstance(o, Idx) or isinstance(o, Ser) and o.kind == 'index'):
        return False
    a = o.axis
    while a.args[0] in ('unsorted', 'rev', 'filter'):
        a = a.args[1]
    return a.args[0] == 'keys' and a.args[1] == 'group' and len(a.args) > 3


def show_key(v):
    return repr(v.t) if isinstance(v, S) else '?'


def isbool(s):
    return s.k == 'bool' or s.t.op in ('bool', 'cmp', 'and', 'or', 'not', 'isnull', 'g', 'sym', 'app', 'opq')


def under(t, c):
    """a choice between elements where c fixes which one is meant"""
    if t.op not in ('g', 'add', 'mul'):
        return t
    fixed = {}
    known = set(conj(c))
    for x in known:
        if x.op == 'cmp' and x.args[0] == 'eq' and x.args[2].op == 'num':
            fixed[x.args[1]] = x.args[2]
    memo = {}

    def cond(x):
        if x in known:
            return True
        if x.op == 'cmp' and x.args[0] == 'eq' and x.args[1] in fixed and x.args[2].op == 'num':
            return x.args[2] is fixed[x.args[1]]
        if x.op == 'and':
            v = [cond(y) for y in x.args]
            if False in v:
                return False
            return True if all(v) else None
        return None

    def go(u):
        if u.op == 'g':
            v = cond(u.args[0])
            if v is not None:
                return go(u.args[1] if v else u.args[2])
        if u.op in ('add', 'mul'):
            return TM.rebuild(u.op, tuple(go(x) for x in u.args))
        return u
    return go(t)
