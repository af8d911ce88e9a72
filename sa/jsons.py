"""Models of JSON texts: json.dumps, json.loads and the JSON methods of pandas.

A text is the term jsontext(k), where k is the number of a tree in interp.jsons:
('obj', ((key, tree), ...)), ('arr', (tree, ...)), ('val', S) or ('tab', Table)."""
from . import terms as TM
from .terms import FALSE, NONE, TRUE, T, add, app, cmp, fn, g, lor, mk, mul, num, power, string, tim
from .values import *

TM.APPFLAGS['jsontext'] = ('val',)


class Table(object):
    """series or frame as JSON object"""

    def __init__(self, obj, orient, digits=10, textorder=False):
        self.obj = obj                # Ser, Tab, Frm or Lib('gframe')
        self.orient = orient          # which labels are the outer keys: 'columns' or 'index'; or the name of another layout
        self.digits = digits
        self.textorder = textorder    # keys in the order of their texts

    def keys(self):
        """outer keys as far as they are known"""
        o = self.obj
        if isinstance(o, Ser):
            a = o.axis
        elif isinstance(o, Tab):
            a = o.cols if self.orient == 'columns' else o.rows
        elif isinstance(o, Frm):
            if self.orient == 'columns':
                return [str(n) for n, t in o.cols]
            a = o.axis
        elif self.orient == 'columns':
            return [str(n) for n, t in o.cols]
        else:
            return []
        if a.args[0] == 'keys' and a.args[1] == 'list':
            return [text(k) for k in a.args[2:]]
        return []


def text(k):
    if k.op == 'str':
        return k.args[0]
    if k.op == 'num':
        return str(int(k.args[0])) if k.args[0].denominator == 1 else str(float(k.args[0]))
    return str(k)


def plain(v):
    """constant of an option"""
    if isinstance(v, S):
        if v.t.op in ('str', 'bool'):
            return v.t.args[0]
        if v.t.op == 'num':
            return v.t.args[0]
        if v.t is NONE:
            return None
    return '?'


def unordered(a):
    return a if a.args[0] == 'unsorted' else ax('unsorted', a)


def tree_of(i, t):
    if t.op == 'app' and t.args[0] == 'jsontext':
        return i.jsons[t.args[1]]
    return None


class Jsons(object):

    def jsontext(self, tree):
        i = self.i
        for k, x in enumerate(i.jsons):
            if x is tree:
                return S(app('jsontext', k), 'str')
        i.jsons.append(tree)
        return S(app('jsontext', len(i.jsons) - 1), 'str')

    def jsondead(self, why):
        from .interp import Dead
        self.i.event('badcall', why)
        raise Dead('json')

    # -- writing --------------------------------------------------------------------------

    def f_json_dumps(self, args, kwargs):
        i = self.i
        opts = dict(kwargs)
        v = args[0] if args else opts.pop('obj', None)
        default = opts.pop('default', None)
        order = plain(opts.pop('sort_keys', S(FALSE)))
        for k in opts:
            if k not in ('indent', 'ensure_ascii', 'separators', 'allow_nan', 'check_circular'):
                return i.unsup('json.dumps(%s=)' % k)
        if plain(opts.get('allow_nan', S(TRUE))) is not True or order == '?':
            return i.unsup('json.dumps options')
        if default is not None and isinstance(default, S) and default.t is NONE:
            default = None
        tree = self.encode(v, default, bool(order), 0)
        if tree is None:
            return S(app('dumps', TM.opq('json')), 'str')
        return self.jsontext(tree)

    def f_json_dump(self, args, kwargs):
        i = self.i
        opts = dict(kwargs)
        f = args[1] if len(args) > 1 else opts.pop('fp', None)
        t = self.f_json_dumps(args[:1], opts)
        o = self.d(f) if f is not None else None
        if isinstance(o, Lib) and o.kind == 'file' and isinstance(t, S):
            self.written(o, [t])
        return S(NONE, 'none')

    def encode(self, v, default, order, depth):
        i = self.i
        if depth > 12:
            i.unsup('deep JSON value')
            return None
        o = self.d(v)
        if isinstance(o, Alt):
            i.unsup('JSON of alternatives')
            return None
        if isinstance(o, S) and o.k not in ('ts', 'td', 'date', 'complex', 'bytes'):
            return ('val', o)
        if isinstance(o, Lib) and o.kind == 'jsonobj':
            t = o.table
            return ('tab', Table(t.obj, t.orient, t.digits, True) if order else t)
        if isinstance(o, Dct):
            if o.open:
                i.unsup('JSON of an open dictionary')
                return None
            out = []
            for k, x in o.items:
                y = self.encode(x, default, order, depth + 1)
                if y is None:
                    return None
                out.append((k if isinstance(k, str) else text(k) if isinstance(k, T) else str(k), y))
            return ('obj', tuple(sorted(out, key=lambda p: p[0]) if order else out))
        if isinstance(o, (Lst, Tup)):
            if any(isinstance(x, Splice) for x in o.items):
                i.unsup('JSON of a list of unknown length')
                return None
            out = [self.encode(x, default, order, depth + 1) for x in o.items]
            return None if None in out else ('arr', tuple(out))
        if isinstance(o, (Opq, Symo)) or isinstance(o, Lib) and o.kind in ('symvec', 'symlist'):
            i.unsup('JSON of an unknown value')
            return None
        if default is None:
            self.jsondead('%s is not JSON serializable' % type(o).__name__)
        n = len(i.undecided)
        r = i.call(default, [v], {})
        ro = self.d(r)
        if isinstance(ro, Opq) or isinstance(ro, (Alt, Undef)):
            if len(i.undecided) == n:
                i.unsup('JSON encoder')
            return None
        return self.encode(r, default, order, depth + 1)

    def to_json(self, o, args, kwargs):
        i = self.i
        series = isinstance(o, Ser)
        opts = dict(kwargs)
        path = args[0] if args else opts.pop('path_or_buf', S(NONE))
        orient = plain(args[1] if len(args) > 1 else opts.pop('orient', S(NONE)))
        digits = plain(opts.pop('double_precision', S(num(10))))
        for k in opts:
            if k not in ('date_format', 'date_unit', 'indent', 'force_ascii', 'default_handler'):
                return i.unsup('to_json(%s=)' % k)
        if orient == '?' or digits == '?' or not isinstance(path, S) or path.t is not NONE:
            return i.unsup('to_json options')
        if orient is None:
            orient = 'index' if series else 'columns'
        return self.jsontext(('tab', Table(o, orient, int(digits))))

    def ser_to_json(self, ref, o, args, kwargs):
        return self.to_json(o, args, kwargs)

    tab_to_json = frm_to_json = ser_to_json

    # -- reading --------------------------------------------------------------------------

    def f_json_loads(self, args, kwargs):
        i = self.i
        s = args[0] if args else kwargs.get('s')
        t = tree_of(i, s.t) if isinstance(s, S) else None
        if t is None:
            return i.unsup('json.loads')
        return self.decoded(t, kwargs)

    def f_json_load(self, args, kwargs):
        i = self.i
        o = self.d(args[0] if args else kwargs.get('fp'))
        t = None
        if isinstance(o, Lib) and o.kind == 'file':
            t = self.file_tree(o)
        if isinstance(o, Lib) and o.kind == 'strbuf' and isinstance(o.content, S):
            t = tree_of(i, o.content.t)
        if t is None:
            return i.unsup('json.load')
        return self.decoded(t, kwargs)

    def file_tree(self, o):
        i = self.i
        if i.files is None or o.path.op != 'str':
            return None
        f = i.files.get(o.path.args[0])
        parts = getattr(f, 'parts', None)
        if parts is None or not f.certain or len(parts) != 1:
            return None
        return tree_of(i, parts[0])

    def decoded(self, tree, kwargs):
        i = self.i
        for k in kwargs:
            if k not in ('object_hook', 'fp', 's', 'parse_float', 'strict'):
                return i.unsup('json.loads(%s=)' % k)
        if 'parse_float' in kwargs and not (isinstance(kwargs['parse_float'], Ext) and kwargs['parse_float'].path == 'float'):
            return i.unsup('json.loads(parse_float=)')
        hook = kwargs.get('object_hook')
        if isinstance(hook, S) and hook.t is NONE:
            hook = None
        return self.decode(tree, hook)

    def decode(self, tree, hook):
        i = self.i
        k, x = tree
        if k == 'val':
            if x.k == 'str' or x.t.op == 'str':
                return S(x.t, 'str')
            return x
        if k == 'arr':
            return self.new(Lst([self.decode(y, hook) for y in x]))
        if k == 'obj':
            v = self.new(Dct([(n, self.decode(y, hook)) for n, y in x]))
        else:
            v = Lib('jsonobj', table=x, cls='dict')
        if hook is not None:
            v = i.call(hook, [v], {})
        return v

    def jsonobj_in(self, o, a):
        """membership of a key in a JSON object made from a table"""
        if isinstance(a, S) and a.t.op == 'str':
            ks = o.table.keys()
            if ks:
                return S(TM.boolean(a.t.args[0] in ks), 'bool')
            if not a.t.args[0].lstrip('-').replace('.', '').isdigit():
                return S(FALSE, 'bool')        # the labels are numbers
        return self.i.unsup('membership in a JSON object')

    def f_pandas_read_json(self, args, kwargs):
        i = self.i
        opts = dict(kwargs)
        src = args[0] if args else opts.pop('path_or_buf', None)
        o = self.d(src) if src is not None else None
        tree = None
        if isinstance(o, Lib) and o.kind == 'strbuf' and isinstance(o.content, S):
            tree = tree_of(i, o.content.t)
        elif isinstance(o, Lib) and o.kind == 'file':
            tree = self.file_tree(o)
        typ = plain(opts.pop('typ', S(string('frame'))))
        orient = plain(opts.pop('orient', S(NONE)))
        convert = plain(opts.pop('convert_axes', S(NONE)))
        for k in opts:
            if k not in ('dtype', 'convert_dates', 'precise_float', 'keep_default_dates', 'date_unit'):
                return i.unsup('read_json(%s=)' % k)
        if tree is None or typ not in ('frame', 'series') or orient == '?' or convert == '?':
            return i.unsup('read_json')
        if tree[0] != 'tab':
            return i.unsup('read_json of another value')
        t = tree[1]
        series = isinstance(t.obj, Ser)
        if orient is None:
            orient = 'index' if typ == 'series' else 'columns'
        if series != (typ == 'series'):
            i.event('misread', 'JSON of a %s read as %s' % ('series' if series else 'frame', typ))
            if series:
                self.jsondead('series read as frame')
            return i.unsup('read_json')
        turned = t.orient != orient
        if turned and {t.orient, orient} != {'index', 'columns'}:
            i.event('misread', 'JSON written with orient=%r read with orient=%r' % (t.orient, orient))
            return i.unsup('read_json')

        def rnd(x):
            if t.digits >= 10:
                return x
            f = num(10 ** t.digits)
            return mul(power(f, num(-1)), fn('round', mul(f, x)))

        def lab(a):
            if t.textorder:
                a = unordered(a)
            return ax('keys', 'texts', a) if convert is False else a
        o = t.obj
        if isinstance(o, Ser):
            if len(o.axis.args) > 3 and o.axis.args[1] == 'group':
                return self.new(Ser(ax('keys', 'texts', o.axis), rnd(o.t), 'series'))
            return self.new(Ser(lab(o.axis), rnd(o.t), 'series'))
        if isinstance(o, Tab):
            r = self.new(Tab(lab(o.rows), lab(o.cols), rnd(o.t)))
            return self.getattr(r, self.d(r), 'T') if turned else r
        if isinstance(o, Frm):
            if turned:
                u = None
                for n, x in reversed(o.cols):
                    x = TM.rewrite(rnd(x), lambda y: tim('row') if y is tim('key0') else None)
                    u = x if u is None else g(cmp('eq', tim('col'), string(n) if isinstance(n, str) else self.lib.keyval(n).t), x, u)
                cols = ax('keys', 'list', *[string(str(n)) for n, x in o.cols])
                r = self.new(Tab(lab(o.axis), cols, u))
                return self.getattr(r, self.d(r), 'T')
            cols = tuple((n, rnd(x)) for n, x in o.cols)
            if t.textorder:
                cols = tuple(sorted(cols, key=lambda p: str(p[0])))
            return self.new(Frm(lab(o.axis), cols))
        if isinstance(o, Lib) and o.kind == 'gframe' and not turned and convert is not False:
            cols = tuple((n, rnd(x) if x.op != 'tim' else x) for n, x in o.cols)
            return Lib('gframe', axis=o.axis, cols=cols, cls='pandas.DataFrame', mixed=t.textorder)
        return i.unsup('read_json of a %s' % type(o).__name__)

    # -- frames with the keys of a grouped series as columns ---------------------------------

    def gframe(self, o):
        name = getattr(o, 'name', None)
        n = len(o.axis.args) - 2
        cols = tuple(('level_%d' % k, tim('key%d' % k)) for k in range(n)) + ((name if isinstance(name, str) else '0', o.t),)
        return Lib('gframe', ser=o, axis=o.axis, cols=cols, cls='pandas.DataFrame', mixed=False)

    def gframe_json(self, l, name, args, kwargs):
        """methods of such frames; None when there is no model"""
        i = self.i
        if name == 'to_json':
            return self.to_json(l, args, kwargs)
        if name in ('sort_index', 'sort_values') and not args and not kwargs and name == 'sort_index':
            return Lib('gframe', axis=l.axis, cols=l.cols, cls=l.cls, mixed=False)
        if name in ('copy', 'squeeze', 'infer_objects', 'convert_dtypes') and not args:
            return l
        if name == 'set_index' and not set(kwargs) - {'keys', 'drop', 'append'}:
            ks = args[0] if args else kwargs.get('keys')
            its = self.lib.iterate(ks) if not isinstance(ks, S) else [ks]
            if its is None or plain(kwargs.get('drop', S(TRUE))) is not True or plain(kwargs.get('append', S(FALSE))) is not False:
                return None
            names = [x.t.args[0] if isinstance(x, S) and x.t.op == 'str' else None for x in its]
            cols = dict(l.cols)
            if None in names:
                return None
            missing = [x for x in names if x not in cols]
            if missing:
                self.jsondead('no column %r' % missing[0])
            rest = tuple((c, t) for c, t in l.cols if c not in names)
            terms = [cols[x] for x in names]
            own = [tim('key%d' % k) for k in range(len(l.axis.args) - 2)]
            if sorted(map(str, terms)) == sorted(map(str, own)):
                perm = [own.index(t) for t in terms]
                axis = ax('keys', 'group', *[l.axis.args[2 + p] for p in perm])
                m = dict((own[p], own[k]) for k, p in enumerate(perm))
                rest = tuple((c, TM.rewrite(t, lambda y: m.get(y)) if perm != sorted(perm) else t) for c, t in rest)
            else:
                axis = ax('keys', 'records', l.axis, *terms)
            return self.new(Frm(ax('unsorted', axis) if l.mixed else axis, rest))
        return None

    def frm_squeeze(self, ref, o, args, kwargs):
        which = plain(args[0] if args else kwargs.get('axis', S(NONE)))
        if o.open or which not in (None, 1, 'columns'):
            return self.i.unsup('squeeze')
        if len(o.cols) == 1:
            return self.new(Ser(o.axis, o.cols[0][1], 'series', name=o.cols[0][0]))
        return ref

    def frm_rename_axis(self, ref, o, args, kwargs):
        return self.new(o.with_(origin=None, owner=None))

    def sorted_keys(self, a):
        """the same labels in ascending order"""
        if a.args[0] in ('unsorted', 'rev'):
            a = a.args[1]
        if a.args[0] == 'keys' and a.args[1] == 'list':
            ks = a.args[2:]
            if all(k.op == 'num' for k in ks):
                return ax('keys', 'list', *sorted(ks, key=lambda k: k.args[0]))
            if all(k.op == 'str' for k in ks):
                return ax('keys', 'list', *sorted(ks, key=lambda k: k.args[0]))
            return None
        return a

    def tab_sort_index(self, ref, o, args, kwargs):
        which = plain(args[0] if args else kwargs.get('axis', S(num(0))))
        up = plain(kwargs.get('ascending', S(TRUE)))
        if set(kwargs) - {'axis', 'ascending'} or which not in (0, 1, 'index', 'columns') or up not in (True, False):
            return self.i.unsup('sort_index')
        cols = which in (1, 'columns')
        a = self.sorted_keys(o.cols if cols else o.rows)
        if a is None:
            return self.i.unsup('sort_index')
        if not up:
            a = ax('rev', a)
        return self.new(Tab(o.rows if cols else a, a if cols else o.cols, o.t))

    def tab_squeeze(self, ref, o, args, kwargs):
        return ref

    def tab_columns_of(self, o, names):
        """table[list of labels]"""
        a = o.cols.args[1] if o.cols.args[0] in ('unsorted', 'rev') else o.cols
        if a.args[0] == 'keys' and a.args[1] == 'list':
            gone = [k for k in names if k not in a.args[2:]]
            if gone:
                self.jsondead('no column %s' % text(gone[0]))
            return self.new(Tab(o.rows, ax('keys', 'list', *names), o.t))
        return None
