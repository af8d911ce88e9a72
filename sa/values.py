"""Abstract values of the interpreter."""
from .terms import *


class Value(object):
    pass


class S(Value):
    """scalar: a term plus a kind (int float bool str none ts td date None)"""

    __slots__ = ('t', 'k')

    def __init__(self, t, k=None):
        self.t = t
        self.k = k

    def __repr__(self):
        return 'S(%r)' % self.t


class Ref(Value):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%d)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class Alt(Value):
    """one of two values of different shape, chosen by a condition"""

    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Alt(%r, %r, %r)' % (self.c, self.a, self.b)


class Opq(Value):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opq(%s)' % self.why


class Splice(Opq):
    """part of a list: the positions of all rows of an axis that meet a condition"""
    __slots__ = ('axis', 'cond')

    def __init__(self, axis, cond):
        Opq.__init__(self, 'positions collected in a loop')
        self.axis, self.cond = axis, cond


class Undef(Value):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Undef(%s)' % self.name


class Tup(Value):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class FnV(Value):
    """function of the analysed package"""

    def __init__(self, node, mod, frame, name, cls=None, self_=None, kind=None, defaults=None, qual=None):
        self.node = node
        self.mod = mod
        self.frame = frame
        self.name = name
        self.cls = cls
        self.self_ = self_
        self.kind = kind  # None, 'property', 'classmethod', 'staticmethod'
        self.setter = None
        self.defaults = defaults
        self.qual = qual or name

    def bind(self, recv):
        f = FnV(self.node, self.mod, self.frame, self.name, self.cls, recv, self.kind, self.defaults, self.qual)
        f.setter = self.setter
        return f

    def __repr__(self):
        return 'FnV(%s)' % self.qual


class ClsV(Value):
    def __init__(self, name, node, mod, attrs, bases):
        self.name = name
        self.node = node
        self.mod = mod
        self.attrs = attrs
        self.bases = bases

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClsV):
                v = b.lookup(name)
                if v is not None:
                    return v
        return None

    def ext_bases(self):
        out = []
        for b in self.bases:
            if isinstance(b, Ext):
                out.append(b.path)
            elif isinstance(b, ClsV):
                out += b.ext_bases()
        return out

    def __repr__(self):
        return 'ClsV(%s)' % self.name


class ModV(Value):
    def __init__(self, name, env):
        self.name = name
        self.env = env

    def __repr__(self):
        return 'ModV(%s)' % self.name


class Ext(Value):
    """object of an external library, known by its dotted path"""

    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Meth(Value):
    """method of a modelled library object"""

    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return 'Meth(%r.%s)' % (self.recv, self.name)


class Lib(Value):
    """immutable intermediate library object: groupby, resampler, indexer, iterators ..."""

    def __init__(self, kind, **d):
        self.kind = kind
        self.__dict__.update(d)

    def __repr__(self):
        return 'Lib(%s)' % self.kind


# heap objects --------------------------------------------------------------


class Ser(object):
    """one-dimensional data: kind series | array | index | list; term is pointwise"""

    __slots__ = ('axis', 't', 'kind', 'origin', 'name', 'view')

    def __init__(self, axis, t, kind='series', origin=None, name=None, view=None):
        self.axis = axis
        self.t = t
        self.kind = kind
        self.origin = origin
        self.name = name
        self.view = view

    def with_(self, **k):
        d = dict(axis=self.axis, t=self.t, kind=self.kind, origin=self.origin, name=self.name, view=self.view)
        d.update(k)
        return Ser(**d)

    def __repr__(self):
        return 'Ser<%s>(%r | %r)' % (self.kind, self.axis, self.t)


class Idx(object):
    """DatetimeIndex whose entries are the time stamps of an axis"""

    __slots__ = ('axis', 'origin', 'owner')

    def __init__(self, axis, origin=None, owner=None):
        self.axis = axis
        self.origin = origin
        self.owner = owner

    def with_(self, **k):
        d = dict(axis=self.axis, origin=self.origin, owner=self.owner)
        d.update(k)
        return Idx(**d)

    def __repr__(self):
        return 'Idx(%r)' % (self.axis,)


class Frm(object):
    """data frame with time (or key) axis; open: name of the source of further columns"""

    __slots__ = ('axis', 'cols', 'open', 'origin', 'owner')

    def __init__(self, axis, cols, open=None, origin=None, owner=None):
        self.axis = axis
        self.cols = cols  # tuple of (name, term)
        self.open = open
        self.origin = origin
        self.owner = owner

    def with_(self, **k):
        d = dict(axis=self.axis, cols=self.cols, open=self.open, origin=self.origin, owner=self.owner)
        d.update(k)
        return Frm(**d)

    def get(self, name):
        for n, t in self.cols:
            if n == name:
                return t
        return None

    def set(self, name, t):
        cols = []
        hit = False
        for n, u in self.cols:
            if n == name:
                cols.append((n, t))
                hit = True
            else:
                cols.append((n, u))
        if not hit:
            cols.append((name, t))
        return self.with_(cols=tuple(cols))

    def __repr__(self):
        return 'Frm(%r | %s%s)' % (self.axis, dict(self.cols), ' + %s' % self.open if self.open else '')


class Tab(object):
    """two-dimensional table: term in tim('row') and tim('col'); row/column keys described"""

    __slots__ = ('rows', 'cols', 't', 'origin', 'kind')

    def __init__(self, rows, cols, t, origin=None, kind='frame'):
        self.rows = rows
        self.cols = cols
        self.t = t
        self.origin = origin
        self.kind = kind

    def with_(self, **k):
        d = dict(rows=self.rows, cols=self.cols, t=self.t, origin=self.origin, kind=self.kind)
        d.update(k)
        return Tab(**d)

    def __repr__(self):
        return 'Tab(%r x %r | %r)' % (self.rows, self.cols, self.t)


class Arr(object):
    """array of small constant shape with one term per cell"""

    __slots__ = ('shape', 'cells', 'origin', 'view')

    def __init__(self, shape, cells, origin=None, view=None):
        self.shape = tuple(shape)
        self.cells = tuple(cells)
        self.origin = origin
        self.view = view

    def with_(self, **k):
        d = dict(shape=self.shape, cells=self.cells, origin=self.origin, view=self.view)
        d.update(k)
        return Arr(**d)

    def __repr__(self):
        return 'Arr%r%r' % (self.shape, self.cells)


class Lst(object):
    __slots__ = ('items', 'origin')

    def __init__(self, items, origin=None):
        self.items = tuple(items)
        self.origin = origin

    def with_(self, **k):
        d = dict(items=self.items, origin=self.origin)
        d.update(k)
        return Lst(**d)

    def __repr__(self):
        return 'Lst%r' % (self.items,)


class Dct(object):
    """dict with constant keys; attr: attribute access reads the items; open: symbolic rest"""

    __slots__ = ('items', 'origin', 'attr', 'cls', 'open')

    def __init__(self, items, origin=None, attr=False, cls=None, open=None):
        self.items = tuple(items)  # (key term/python key, value)
        self.origin = origin
        self.attr = attr
        self.cls = cls
        self.open = open

    def with_(self, **k):
        d = dict(items=self.items, origin=self.origin, attr=self.attr, cls=self.cls, open=self.open)
        d.update(k)
        return Dct(**d)

    def get(self, k):
        for n, v in self.items:
            if n == k:
                return v
        return None

    def set(self, k, v):
        out = []
        hit = False
        for n, w in self.items:
            if n == k:
                out.append((n, v))
                hit = True
            else:
                out.append((n, w))
        if not hit:
            out.append((k, v))
        return self.with_(items=tuple(out))

    def __repr__(self):
        return 'Dct%r%s' % (dict(self.items), '+' + self.open if self.open else '')


class Obj(object):
    __slots__ = ('cls', 'fields', 'origin')

    def __init__(self, cls, fields, origin=None):
        self.cls = cls
        self.fields = fields  # tuple of (name, value)
        self.origin = origin

    def with_(self, **k):
        d = dict(cls=self.cls, fields=self.fields, origin=self.origin)
        d.update(k)
        return Obj(**d)

    def get(self, n):
        for k, v in self.fields:
            if k == n:
                return v
        return None

    def set(self, n, v):
        out = []
        hit = False
        for k, w in self.fields:
            if k == n:
                out.append((k, v))
                hit = True
            else:
                out.append((k, w))
        if not hit:
            out.append((n, v))
        return self.with_(fields=tuple(out))

    def __repr__(self):
        return 'Obj<%s>' % self.cls.name


class Symo(object):
    """heap object of which nothing but a symbolic identity is known"""

    __slots__ = ('t', 'kind', 'origin')

    def __init__(self, t, kind, origin=None):
        self.t = t
        self.kind = kind
        self.origin = origin

    def with_(self, **k):
        d = dict(t=self.t, kind=self.kind, origin=self.origin)
        d.update(k)
        return Symo(**d)

    def __repr__(self):
        return 'Symo<%s>(%r)' % (self.kind, self.t)


# axes ------------------------------------------------------------------------


def ax(kind, *args):
    if kind == 'filter':
        a, m = args
        if m is TRUE:
            return a
        if a.args[0] in ('hourlyfill', 'gridfill', 'span'):
            from .axes import mask
            if m is mask(a):
                return a
            if m is mask(a.args[1]):
                if a.args[0] == 'span':
                    return a.args[1]
                return mk('ax', 'hourly' if a.args[0] == 'hourlyfill' else 'grid', *a.args[1:])
        if a.args[0] == 'filter':
            return mk('ax', 'filter', a.args[1], land(a.args[2], m))
        return mk('ax', 'filter', a, m)
    if kind in ('hourly', 'hourlyfill', 'grid', 'gridfill'):
        a = args[0]
        if a.args[0] == 'span':
            kind = {'hourly': 'hourlyfill', 'grid': 'gridfill'}.get(kind, kind)
            return mk('ax', kind, a.args[1], *args[1:])
    if kind == 'span':
        a, = args
        if a.args[0] == 'span':
            return a
        if a.args[0] == 'days' and a.args[1].args[0] == 'hourly':
            return ax('span', a.args[1].args[1])
    if kind == 'days':
        a, = args
        if a.args[0] == 'hourly':
            return a.args[1]
        if a.args[0] == 'hourlyfill':
            return ax('span', a.args[1])
    return mk('ax', kind, *args)


def gran(axis):
    """granularity of an axis: 'D' daily, 'H' sub-daily time, 'K' keys, 'P' positions, None"""
    k = axis.args[0]
    if k == 'in':
        return axis.args[2]
    if k in ('hourly', 'hourlyfill', 'grid', 'gridfill', 'athour'):
        return 'H'
    if k in ('span', 'days'):
        return 'D'
    if k in ('filter', 'slice', 'sorted'):
        return gran(axis.args[1])
    if k == 'keys':
        return 'K'
    if k in ('range', 'pos'):
        return 'P'
    return None


def root(axis):
    while axis.args[0] in ('filter', 'slice'):
        axis = axis.args[1]
    return axis


# bound variables -----------------------------------------------------------


def lamlevel(t):
    lv = 0
    for u in subterms(t):
        if u.op == 'lam':
            lv = max(lv, u.args[0])
    return lv


def lam(var, body):
    """abstract the variable term var in body"""
    lv = lamlevel(body) + 1
    bv = mk('bv', lv)
    return mk('lam', lv, subst(body, {var: bv}))


def lam_apply(l, arg):
    return subst(l.args[1], {mk('bv', l.args[0]): arg})


def subst(t, mapping):
    return tdrewrite(t, mapping.get)
