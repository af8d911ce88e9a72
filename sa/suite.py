"""Common parts of the value-analysis checks: entry points, inputs, comparison with formulas."""
import ast
import os
import textwrap

from . import axes
from .agree import compare
from .axes import HOURLY, closure, conj, gr, mask, sameaxis
from .interp import AltH, Dead, Frame, Interp
from .report import Broken
from .terms import (FALSE, NANT, NONE, T, TRUE, ZERO, app, boolean, cmp, col, decide, g, isnull, land, lnot, lor, num, opaques, show, string,
                    subterms, sym, tim)
from .values import Alt, Arr, Dct, Frm, FnV, Idx, Ext, Lib, Lst, ModV, Obj, Opq, Ref, S, Ser, Tab, Tup, ax

HOURLY.update(('T', 'P', 'M', 'O', 'MS'))

X = ax('in', 'X', 'D')
HX = ax('hourly', X)
M = ax('in', 'M', 'H')

# module in which each public function lives at present; looked up in the package first
HOME = {
    'disaggregate_humidity': 'melodist.humidity', 'calculate_dewpoint_regression': 'melodist.humidity',
    'calculate_month_hour_precip_mean': 'melodist.humidity', 'disaggregate_temperature': 'melodist.temperature',
    'get_shift_by_data': 'melodist.temperature', 'disaggregate_wind': 'melodist.wind', 'fit_cosine_function': 'melodist.wind',
    'disaggregate_radiation': 'melodist.radiation', 'potential_radiation': 'melodist.radiation',
    'bristow_campbell': 'melodist.radiation', 'angstroem': 'melodist.radiation',
    'fit_bristow_campbell_params': 'melodist.radiation', 'fit_angstroem_params': 'melodist.radiation',
    'disagg_prec': 'melodist.precipitation', 'disagg_prec_cascade': 'melodist.precipitation',
    'precip_master_station': 'melodist.precipitation', 'aggregate_precipitation': 'melodist.precipitation',
    'seasonal_subset': 'melodist.precipitation', 'build_casc': 'melodist.precipitation',
    'read_smet': 'melodist.data_io', 'write_smet': 'melodist.data_io', 'read_dwd': 'melodist.data_io',
    'read_single_knmi_file': 'melodist.data_io', 'read_knmi_dataset': 'melodist.data_io',
    'Station': 'melodist.station', 'StationStatistics': 'melodist.stationstatistics',
}
UTIL = 'melodist.util.util'


def s(text):
    return S(string(text), 'str')


def n(x):
    return S(num(x), 'int' if isinstance(x, int) else 'float')


def b(x):
    return S(boolean(bool(x)), 'bool')


def param(name, *flags):
    return S(sym(name, 'nonan', *flags))


def none():
    return S(NONE, 'none')


class Run(object):
    """analysis of one call"""

    def __init__(self, repo):
        self.i = Interp(repo)
        self.i.import_module('melodist')
        self.value = None
        self.dead = None
        self.error = None

    def find(self, name):
        i = self.i
        f = None
        parts = name.split('.')
        base = parts[0]
        for mod in ('melodist', HOME.get(base, UTIL)):
            try:
                f = i.function(mod, name)
            except KeyError:
                f = None
            if f is not None:
                break
        if f is None:
            raise Broken('public function %s not found' % name)
        return f

    def call(self, name, args, kwargs=None):
        f = self.find(name) if isinstance(name, str) else name
        try:
            self.value = self.i.call(f, list(args), dict(kwargs or {}))
        except Dead as e:
            self.dead = str(e)
        except RecursionError:
            self.error = 'recursion'
        except Broken:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.error = '%s: %s' % (type(e).__name__, e)
        return self

    def script(self, text, **env):
        """analyse statements of a user of the package; returns the names they define"""
        i = self.i
        fid = 'mod:client'
        fr = i.st.frames.setdefault(fid, {'melodist': i.mods['melodist'], 'pd': Ext('pandas'), 'np': Ext('numpy')})
        fr.update(env)
        m = ModV('client', fid)
        i.mods['client'] = m
        saved = i.curfile, i.curnode
        i.curfile = 'client'
        try:
            o = i.exec_block(ast.parse(textwrap.dedent(text)).body, Frame(fid, i, m, None))
            if o.st is None:
                self.dead = 'all paths fail'
                return None
            i.st.become(o.st)
        except Dead as e:
            self.dead = str(e)
            return None
        except RecursionError:
            self.error = 'recursion'
            return None
        except Broken:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.error = '%s: %s' % (type(e).__name__, e)
            return None
        finally:
            i.curfile, i.curnode = saved
        return i.st.frames[fid]

    def get(self, name):
        v = self.i.st.frames['mod:client'].get(name)
        return self.i.deref(v) if v is not None else None

    # inputs -----------------------------------------------------------------

    def frame(self, src='X', axis=X):
        return self.i.alloc(Frm(axis, (), open=src, origin=src))

    def closed(self, src='X', axis=X, cols=None):
        """frame with exactly the given columns"""
        cols = cols or ('tmean', 'temp', 'tmin', 'tmax', 'precip', 'glob', 'ssd', 'hum', 'hum_min', 'hum_max', 'wind')
        return self.i.alloc(Frm(axis, tuple((c, col(src, c)) for c in cols), origin=src))

    def series(self, src, name, axis):
        return self.i.alloc(Ser(axis, col(src, name), 'series', origin='%s.%s' % (src, name), name=name))

    def temp(self):
        return self.series('T', 'temp', HX)

    def index(self, axis):
        return self.i.alloc(Idx(axis))

    def table(self, name):
        """hours as rows, months as columns"""
        return self.i.alloc(Tab(ax('keys', 'lvl', tim('hour')), ax('keys', 'lvl', tim('month')),
                                app('lookup', name, tim('row'), tim('col')), origin=name))

    def bykeys(self, name, nkeys):
        return self.i.alloc(Ser(ax('keys', 'param', name), app('lookup', name, *[tim('key%d' % k) for k in range(nkeys)]),
                                'series', origin=name))

    def monthframe(self, name, cols):
        return self.i.alloc(Frm(ax('keys', 'lvl', tim('month')), tuple((c, app('lookup', name + c, tim('key0'))) for c in cols),
                                origin=name))

    def sun(self, axis=X):
        return self.i.alloc(Frm(axis, tuple((c, col('S', c)) for c in ('sunrise', 'sunnoon', 'sunset', 'daylength')),
                                origin='sun'))

    # results ------------------------------------------------------------------

    def obj(self, v=None):
        return self.i.deref(self.value if v is None else v)

    def series_of(self, v=None):
        """(axis, term) of a result that has to be a series; None with a reason otherwise"""
        o = self.obj(v)
        if isinstance(o, (Ser,)):
            return o.axis, o.t
        return None


def construct(repo, name, cfg=''):
    home = HOME.get(name.split('.')[0], UTIL)
    return '%s %s%s' % (home.replace('.', '/') + '.py', name, '(%s)' % cfg if cfg else '')


def why_unknown(run):
    if run.error:
        return run.error
    if run.i.undecided:
        return '; '.join(run.i.undecided[:3])
    return ''


def comparable(ctx, run, name, what):
    """the result as a series, or an undecided / violated obligation"""
    if run.error:
        ctx.undecided(name, run.error)
        return None
    if run.dead:
        if run.i.undecided:
            ctx.undecided(name, '%s (%s)' % (run.dead, run.i.undecided[0]))
        else:
            ctx.violated('call always fails', what, run.dead)
        return None
    r = run.series_of()
    if r is None:
        if isinstance(run.obj(), Opq) or isinstance(run.value, (Alt, Opq)) or isinstance(run.obj(), AltH):
            ctx.undecided(name, why_unknown(run) or 'result not resolved')
        else:
            ctx.undecided(name, 'result is a %s' % type(run.obj()).__name__)
        return None
    return r


def judge(ctx, rule, name, what, got, want, assume=(), limit=60000, run=None):
    """one obligation: the term got equals the term want wherever assume holds"""
    try:
        v = compare(got, want, list(assume), limit)
    except RecursionError:
        ctx.undecided(name, 'comparison too deep')
        return None
    if v.kind == 'eq':
        ctx.holds(name)
        return True
    if v.kind == 'ne':
        ctx.violated(rule, what, v.why)
        return False
    ctx.undecided(name, (opaque_reason(got) or v.why))
    return None


def judge_cond(ctx, rule, name, what, got, want, assume=()):
    """one obligation: two conditions are equivalent"""
    return judge(ctx, rule, name, what, g(got, num(1), num(2)), g(want, num(1), num(2)), list(assume) + axioms(got, want))


def axioms(*ts):
    """what holds between the membership and missing-value conditions that occur"""
    out = []
    for t in ts:
        for u in subterms(t):
            if u.op != 'app':
                continue
            for c in closure([u]) if u.args[0] in ('dayin', 'hourin', 'dayhas', 'islast', 'isfirst') else ():
                if c is not u:
                    out.append(lor(lnot(u), c))
            if u.args[0] == 'dagg' and u.args[1] != 'sum' and u.args[2].args[0] == 'in':
                out.append(lor(app('dayhas', u.args[2], 0), isnull(u)))
            if u.args[0] == 'dagg' and u.args[1] in ('mean', 'min', 'max') and u.args[3].op == 'col':
                out.append(lor(lnot(isnull(u)), isnull(u.args[3])))
            if u.args[0] == 'count' and len(u.args) == 3:
                out += [cmp('ge', u, ZERO), lor(cmp('gt', app('len', u.args[1]), ZERO), cmp('eq', u, ZERO))]
            if u.args[0] == 'len' and u.args[1].op == 'ax' and u.args[1].args[0] in ('in', 'span'):
                out.append(cmp('ge', u, num(1)))        # data sets are not empty
    return list(dict.fromkeys(out))


def opaque_reason(t):
    o = opaques(t)
    if o:
        return 'not modelled: ' + '; '.join(sorted(str(x) for x in o)[:3])
    return ''


def on_axis(axis):
    return list(closure(conj(mask(axis))))


def check_axis(ctx, rule, name, what, got, want, run):
    if sameaxis(got, want):
        ctx.holds(name)
        return True
    bad = wrong_side(got, want)
    if bad is not None:
        ctx.violated(rule, what, 'result lies on %s instead of %s where not %s' % (show(bad[0]), show(want), bad[1]))
        return False
    if axis_opaque(got):
        ctx.undecided(name, 'index not resolved: %s' % (got,))
        return None
    ctx.violated(rule, what, 'result lies on %s instead of %s' % (show(got), show(want)))
    return False


def wrong_side(got, want):
    """a choice between the wanted axis and the one with all gaps filled that goes wrong for some gap"""
    if got.args[0] != 'alt' or len(got.args) != 4:
        return None
    c, a, b = got.args[1:]
    for cond, x, y in ((c, a, b), (lnot(c), b, a)):
        if not sameaxis(x, want) or y.args[0] not in ('hourlyfill', 'gridfill') or y.args[1] is not want.args[1]:
            continue
        size, gap = app('len', y.args[1]), app('gap', y.args[1])
        if any(u.op not in ('num', 'add', 'mul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'not', 'ax', 'cmp') and u not in (size, gap) for u in subterms(cond) if u.op not in ('str',)):
            return None
        v = compare(g(cond, num(1), ZERO), num(1), [cmp('ge', gap, num(1)), cmp('ge', size, num(1))], 2000)
        if v.kind == 'ne':
            return y, cond
    return None


def axis_opaque(a):
    for t in subterms(a):
        if t.op == 'opq' or (t.op == 'ax' and t.args[0] in ('alt', 'opaque', 'unknown', 'labelled', 'anon', 'dr')):
            return True
    return False
