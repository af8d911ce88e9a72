"""Text files as values: what is written to a file and what a reader gets back from it.

A file consists of lines of known text, at most one block of records (a column of cell texts for each field, over a symbolic
axis of records) and lines of known text after it.  Readers are modelled by the effect of each of their options on such a file;
options that do not fit the file are reported as events of the kind 'misread'."""
import fnmatch
import posixpath
import re

from .values import *
from . import terms as TM
from .axes import *

for _n in ('texttable', 'datarow', 'nrows', 'floatcol', 'outerrow', 'rowof'):
    TM.APPFLAGS.setdefault(_n, ('val',))


class Column(object):
    """one field of the records: name as written in the header line, term of its number or text

    kind: 'num' plain number, 'blank' number or nothing but blanks, 'date' text in the format fmt, 'text' any other text, 'cell' a text term"""

    def __init__(self, name, kind, term, fmt=None):
        self.name, self.kind, self.term, self.fmt = name, kind, term, fmt


class File(object):
    def __init__(self, src, head=(), cols=None, sep=',', padded=False, header=True, tail=(), axis=None):
        self.src = src                # name of the data source
        self.head = list(head)        # lines before the records
        self.cols = cols              # None: no records
        self.sep = sep                # ',' ';' or ' ' for any number of blanks
        self.padded = padded          # cells and names may have blanks in front
        self.header = header          # line with names of the fields
        self.tail = list(tail)
        self.axis = axis if axis is not None else ax('rows', src)

    def total(self):
        n = len(self.head) + len(self.tail) + (1 if self.header and self.cols is not None else 0)
        if self.cols is None:
            return num(n)
        return add(num(n), app('nrows', self.src))

    def lines(self):
        """known lines, and whether records follow"""
        out = list(self.head)
        if self.cols is not None and self.header:
            out.append(self.sep.join(c.name for c in self.cols))
        if self.cols is None:
            return out + list(self.tail), False
        return out, True


class Written(object):
    """pieces of text written to a file"""

    def __init__(self):
        self.parts = []
        self.certain = True

    def file(self, name):
        text = ''
        table = None
        rest = ''
        for p in self.parts:
            if p.op == 'str':
                if table is None:
                    text += p.args[0]
                else:
                    rest += p.args[0]
            elif p.op == 'app' and p.args[0] == 'texttable' and table is None:
                table = p
            else:
                return None
        head = text.split('\n')
        if table is None:
            return File(name, head if head[-1] else head[:-1])
        if head[-1] != '':
            return None
        cols = [Column(k.args[0], 'cell', k.args[1]) for k in table.args[2:]]
        tail = [x for x in rest.split('\n') if x] if rest.strip() else []
        return File(name, head[:-1], cols, ' ', False, False, tail, table.args[1])


def pieces(t):
    if t.op == 'app' and t.args[0] == 'cat':
        return list(t.args[1:])
    return [t]


DATE = re.compile(r'%Y(-?)%m\1%d(?:[T ]?(%H|00)(?::?(%M|00)(?::?(%S|00))?)?)?$')


def label_of(fmt, seconds=3600):
    """time stamp obtained from a text written in the given format; None if it cannot be told"""
    m = DATE.match(fmt)
    if not m:
        return None
    t = [DAY0]
    if m.group(2) == '%H':
        t.append(mul(num(3600), HOUR))
    if m.group(3) == '%M':
        t.append(mul(num(60), tim('minute')))
    if m.group(4) == '%S':
        t.append(tim('second'))
    return add(*t)


def bare(t):
    """the field behind its text"""
    while t.op == 'app' and t.args[0] in ('celltext', 'str'):
        t = t.args[1]
    return t


def stamp(t):
    """time stamp made of parts of one text, as reading that text in a format; None if it is something else"""
    src = None
    fmt = ''
    text = ''
    at = {'%Y': 4, '%m': 2, '%d': 2, '%H': 2, '%M': 2, '%S': 2}
    order = []
    for p in pieces(t):
        if p.op == 'str':
            text += p.args[0]
        elif p.op == 'app' and p.args[0] == 'strslice' and p.args[2].op in ('num', 'none') and p.args[3].op == 'num':
            if src is not None and p.args[1] is not src:
                return None
            src = p.args[1]
            lo = int(p.args[2].args[0]) if p.args[2].op == 'num' else 0
            order.append((lo, int(p.args[3].args[0])))
            text += '{}'
        else:
            return None
    if src is None:
        return None
    # the parts in the order year, month, day, hour, minute, second
    m = re.match(r'(\{\})-?(\{\})-?(\{\})(?:[ T]?(\{\}|\d\d)(?::(\{\}|00)(?::(\{\}|00))?)?)?$', text)
    if not m:
        return None
    fs = [f for f, x in zip(('%Y', '%m', '%d', '%H', '%M', '%S'), m.groups()) if x == '{}']
    extra = ZERO
    if m.group(4) not in (None, '{}'):
        extra = num(3600 * int(m.group(4)))
    pos = 0
    for f, (lo, hi) in sorted(zip(fs, order), key=lambda z: z[1]):
        if lo != pos or hi - lo != at[f]:
            return None
        fmt += f
        pos = hi
    return add(app('todatetime', bare(src), mk('kw', 'format', string(fmt))), extra)


class Files(object):
    """mixed into the model of pandas"""

    # -- finding files ---------------------------------------------------------------

    def vfile(self, v):
        """the file behind a name or an open file, if it is known"""
        i = self.i
        o = self.d(v)
        t = o.t if isinstance(o, S) else o.path if isinstance(o, Lib) and o.kind == 'file' else None
        if t is None or t.op != 'str' or i.files is None:
            return None
        f = i.files.get(t.args[0])
        if isinstance(f, Written):
            if not f.certain:
                return None
            f = f.file(t.args[0])
        return f

    def opened(self, path, mode):
        i = self.i
        if i.files is None or path.op != 'str' or mode == '?':
            return
        if 'w' in mode or 'x' in mode:
            i.files[path.args[0]] = Written()
        elif 'a' in mode or '+' in mode:
            f = i.files.get(path.args[0])
            if f is None:
                f = i.files[path.args[0]] = Written()
            if not isinstance(f, Written) or '+' in mode:
                i.unsup('file opened for changing')
        elif path.args[0] not in i.files:
            self.i.event('nofile', path.args[0])

    def written(self, o, args):
        i = self.i
        if i.files is None or o.path.op != 'str':
            return
        f = i.files.get(o.path.args[0])
        if not isinstance(f, Written):
            return
        if len(args) != 1 or not isinstance(args[0], S):
            f.certain = False
            i.unsup('text written to a file')
            return
        if any(x is not TRUE for x in i.st.guard):
            f.certain = False
            i.unsup('conditional writing to a file')
            return
        f.parts += pieces(args[0].t)

    # -- names -------------------------------------------------------------------------

    def text(self, v):
        o = self.d(v)
        return o.t.args[0] if isinstance(o, S) and o.t.op == 'str' else None

    def f_os_path_join(self, args, kwargs):
        xs = [self.text(a) for a in args]
        if None not in xs:
            return S(string(posixpath.join(*xs)), 'str')
        if all(isinstance(self.d(a), S) for a in args):
            return S(app('call.os.path.join', *[self.d(a).t for a in args]), 'str')
        return self.i.unsup('call of os.path.join')

    def f_glob_escape(self, args, kwargs):
        x = self.text(args[0])
        if x is not None:
            return S(string(re.sub(r'([*?[])', r'[\1]', x)), 'str')
        o = self.d(args[0])
        return S(app('call.glob.escape', o.t), 'str') if isinstance(o, S) else self.i.unsup('call of glob.escape')

    def matching(self, pattern):
        d, m = posixpath.split(pattern)
        d = re.sub(r'\[([*?[])\]', r'\1', d)
        return [f for f in self.i.files if posixpath.split(f)[0] == d and fnmatch.fnmatchcase(posixpath.split(f)[1], m)]

    def f_os_listdir(self, args, kwargs):
        i = self.i
        i.event('effect', ('listdir', 'os.listdir', tuple(args)))
        x = self.text(args[0]) if args else None
        if i.files is not None and x is not None:
            return self.new(Lst([S(string(posixpath.split(f)[1]), 'str') for f in i.files if posixpath.split(f)[0] == x.rstrip('/')]))
        return S(app('call.os.listdir', *[a.t for a in args if isinstance(a, S)]))

    # -- reading tables -----------------------------------------------------------------

    def misread(self, why):
        self.i.event('misread', why)
        return Opq('misread file: ' + why)

    def read_known(self, what, f, args, kwargs):
        i = self.i
        kw = dict(kwargs)
        kw.pop('filepath_or_buffer', None)
        if len(args) > 2:
            return i.unsup('options of %s' % what)
        if len(args) == 2:
            kw['sep'] = args[1]
        opt = {}
        for k, v in kw.items():
            o = self.d(v)
            if isinstance(o, S) and o.t is NONE:
                opt[k] = None
            elif isinstance(o, S) and o.t.op in ('str', 'bool'):
                opt[k] = o.t.args[0]
            elif isinstance(o, S) and o.t.op == 'num':
                opt[k] = o.t.args[0]
            else:
                opt[k] = v
        if 'delimiter' in opt:
            opt['sep'] = opt.pop('delimiter')
        if opt.pop('delim_whitespace', False):
            opt['sep'] = r'\s+'
        for k in ('engine', 'encoding', 'low_memory', 'memory_map', 'float_precision'):
            opt.pop(k, None)
        sep = opt.pop('sep', '\t' if what == 'read_table' else ',')
        skip = opt.pop('skiprows', None)
        na = opt.pop('na_values', None)
        names = opt.pop('names', None)
        header = opt.pop('header', 'infer')
        index = opt.pop('index_col', None)
        dates = opt.pop('parse_dates', None)
        initial = opt.pop('skipinitialspace', False)
        dtype = opt.pop('dtype', None)
        footer = opt.pop('skipfooter', 0)
        if opt:
            return i.unsup('options %s of %s' % (', '.join(sorted(opt)), what))
        if f.cols is None:
            return self.misread('no records in the file')
        if isinstance(sep, (Ref, S, Opq)):
            return i.unsup('separator')
        blanks = sep in (r'\s+', ' +', r'[ ]+', r' +')
        if f.sep == ' ':
            if not blanks:
                return self.misread('fields are separated by blanks, not by %r' % sep)
        elif sep.strip() != f.sep and not (f.sep in sep and sep.replace(f.sep, '').replace(r'\s*', '').replace(' *', '') == ''):
            return self.misread('fields are separated by %r, not by %r' % (f.sep, sep))
        elif sep != f.sep:
            initial = True
        # lines that are left out
        gone = 0
        last = footer
        if skip is None:
            pass
        elif isinstance(skip, (int, Fraction)):
            gone = int(skip)
        else:
            its = self.lib.iterate(skip)
            if its is None or not all(isinstance(x, S) for x in its):
                return i.unsup('skipped rows')
            at = []
            for x in its:
                if x.t.op == 'num':
                    at.append(int(x.t.args[0]))
                    continue
                d = sub(f.total(), x.t)
                r = TM.N(d, None)
                d = r if isinstance(r, T) else TM.decide(d, ONE).kind == 'eq' and 1 or None
                if d == 1:
                    last += 1
                else:
                    return self.misread('left out line %s of %s lines' % (TM.show(x.t), TM.show(f.total())))
            if sorted(at) != list(range(len(at))):
                return self.misread('left out lines %s' % sorted(at))
            gone = len(at)
        if isinstance(last, (Ref, S, Opq)):
            return i.unsup('skipped rows')
        start = f.head[gone:] if gone <= len(f.head) else None
        if start is None:
            return self.misread('%d lines left out, but the records begin after %d' % (gone, len(f.head)))
        if any(x.strip() for x in start):
            return self.misread('%d of %d lines before the records left out' % (gone, len(f.head)))
        if int(last) != len(f.tail):
            return self.misread('%d lines at the end left out instead of %d' % (int(last), len(f.tail)))
        # names of the fields
        given = None
        if names is not None:
            its = self.lib.iterate(names)
            given = None if its is None else [self.text(x) for x in its]
            if given is None or None in given:
                return i.unsup('names of fields')
        if given is not None:
            if f.header and header not in (0,):
                return self.misread('line with names read as a record')
            if len(given) != len(f.cols):
                return self.misread('%d names for %d fields' % (len(given), len(f.cols)))
        elif not f.header:
            return self.misread('first record read as names')
        else:
            if header not in ('infer', 0):
                return self.misread('line with names not recognised')
            given = [c.name.lstrip() if initial else c.name for c in f.cols]
        # missing values
        marks = []
        texts = []
        if na is not None:
            if isinstance(na, (str, int, Fraction)):
                vs = [na]
            else:
                its = self.lib.iterate(na)
                if its is None:
                    return i.unsup('markers of missing values')
                vs = []
                for x in its:
                    t = x.t if isinstance(x, S) else None
                    if t is None or t.op not in ('str', 'num', 'nan'):
                        return i.unsup('markers of missing values')
                    if t.op != 'nan':
                        vs.append(t.args[0])
            for x in vs:
                if isinstance(x, str):
                    texts.append(x)
                    try:
                        marks.append(num(float(x)))
                    except ValueError:
                        pass
                else:
                    marks += [num(x), num(int(x))]
        types = {}
        if dtype is not None:
            o = self.d(dtype) if isinstance(dtype, Ref) else None
            if not isinstance(o, Dct):
                return i.unsup('dtype')
            types = dict(o.items)
        cols = []
        for n, c in zip(given, f.cols):
            t = self.cell(f, c, marks, texts, initial, n in types)
            if t is None:
                return i.unsup('field %s' % n)
            cols.append((n, t))
        axis = f.axis
        if index is not None and index is not False:
            if isinstance(index, (int, Fraction)) and not isinstance(index, bool):
                k = int(index)
            elif isinstance(index, str):
                if index not in given:
                    self.i.event('badcall', 'no field %r' % index)
                    from .interp import Dead
                    raise Dead('index_col')
                k = given.index(index)
            else:
                return i.unsup('index_col')
            n, lab = cols.pop(k)
            if dates is True:
                lab = self.dated(f, f.cols[k], lab)
            axis = self.relabelled(axis, lab)
        elif dates:
            return i.unsup('parse_dates')
        return self.new(Frm(axis, tuple(cols)))

    def relabelled(self, axis, lab):
        if lab is self.tst(axis) or (gr(axis) in ('H', 'M') and self.fine(lab, gr(axis)) is self.tst(axis)):
            return axis
        return ax('labelled', axis, lab)

    def fine(self, lab, k):
        if k == 'H':
            parts = [p for p in (lab.args if lab.op == 'add' else (lab,)) if 'minute' not in repr(p) and 'second' not in repr(p)]
            return add(*parts)
        return lab

    def dated(self, f, c, lab):
        """time stamps read from the text of a field"""
        if c.kind == 'date':
            return app('todatetime', bare(lab), mk('kw', 'format', string(c.fmt)))
        if c.kind == 'cell' and lab.op == 'app' and lab.args[0] == 'strftime' and lab.args[2].op == 'str':
            t = label_of(lab.args[2].args[0])
            if t is not None and lab.args[1] is self.tst(f.axis):
                if gr(f.axis) == 'D':
                    return DAY0
                return t
        return app('todatetime', lab)

    def cell(self, f, c, marks, texts, initial, astext):
        """value of a field after reading"""
        if c.kind == 'date':
            return app('celltext', c.term) if astext else c.term
        if c.kind == 'text':
            return c.term
        if c.kind in ('num', 'blank'):
            t = c.term
            if c.kind == 'blank':
                # nothing but blanks: missing only if the blanks are skipped
                if f.padded and not initial:
                    return opq('blank cells read as text')
                t = g(app('blankcell', c.term), NANT, c.term)
            for m in dict.fromkeys(marks):
                hit = cmp('eq', c.term, m)
                if f.padded and not initial:
                    hit = land(hit, app('floatcol', c.name.strip()))
                t = g(hit, NANT, t)
            return t
        return self.parsed(c.term, marks, texts)

    def parsed(self, t, marks, texts):
        """number read from a text term"""
        if t.op == 'g':
            a, b = self.parsed(t.args[1], marks, texts), self.parsed(t.args[2], marks, texts)
            return None if a is None or b is None else g(t.args[0], a, b)
        if t.op == 'str':
            x = t.args[0].strip()
            if x in texts or x in ('', 'NaN', 'nan', 'NA', 'N/A', 'null', 'None', '<NA>', '#N/A', 'NULL', 'n/a', '-nan', '-NaN'):
                return NANT
            try:
                v = num(float(x))
            except ValueError:
                return None
            return NANT if v in marks else v
        if t.op == 'app' and t.args[0] == 'strftime':
            return t
        if t.op == 'app' and t.args[0] == 'fmt':
            m = re.match(r'(?:%|\{:)\.(\d+)f\}?$', t.args[1].args[0]) if t.args[1].op == 'str' else None
            if not m:
                return None
            p = num(10 ** int(m.group(1)))
            v = t.args[2]
            if v.op == 'g':
                return self.parsed(g(v.args[0], app('fmt', t.args[1], v.args[1]), app('fmt', t.args[1], v.args[2])), marks, texts)
            if v.op == 'nan':
                return NANT
            if v.op == 'num':
                v = num(float(('%.' + m.group(1) + 'f') % float(v.args[0])))
                return NANT if v in marks else v
            r = div(fn('round', mul(p, v)), p)
            return g(lor(*[cmp('eq', r, x) for x in dict.fromkeys(marks)]), NANT, r)
        return None

    # -- writing tables --------------------------------------------------------------------

    def text_table(self, o, args, kwargs):
        """text of a frame made by to_string without names and labels"""
        i = self.i
        kw = dict(kwargs)
        if args or o.open:
            return None

        def off(k):
            v = kw.pop(k, None)
            return isinstance(v, S) and v.t is FALSE
        if not off('header') or not off('index'):
            return None
        ff = kw.pop('float_format', None)
        rep = kw.pop('na_rep', None)
        rep = 'NaN' if rep is None else self.text(rep)
        if kw or rep is None or ff is None:
            return None
        cols = []
        for n, t in o.cols:
            if t.op == 'app' and t.args[0] == 'strftime':
                cols.append(mk('kw', str(n), t))
                continue
            if isinstance(ff, S):
                x = self.text(ff)
                c = app('fmt', string(x), t) if x is not None else None
            else:
                r = i.call(ff, [S(t, 'float')], {})
                c = r.t if isinstance(r, S) and r.k == 'str' else None
            if c is None:
                return None
            c = g(isnull(t), string(rep), c)
            cols.append(mk('kw', str(n), c))
        return S(app('texttable', o.axis, *cols), 'str')
