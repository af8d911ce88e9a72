"""Formulas the properties speak about, written as ordinary expressions.

    E("X.tmin if hour < 14 else X.tmin[+1]")

Names of tables ('X.tmin') are columns of an input, [+1] / [-1] the value of the next / previous day;
hour, month, doy, ... are those of the time stamp; other names come from the keyword arguments.
"""
import ast
from fractions import Fraction

from .terms import (PI, NANT, NONE, TRUE, FALSE, T, add, app, boolean, cmp, col, div, fn, g, isnull, land, lnot, lor, mul, neg,
                    num, power, string, sub, sym, tim)

TIMES = ('hour', 'minute', 'month', 'day', 'doy', 'year', 'pos', 'row', 'col', 'key0', 'key1', 'key2', 'day0')
FUNCS = {'exp': 1, 'sin': 1, 'cos': 1, 'tan': 1, 'arccos': 1, 'arcsin': 1, 'arctan': 1, 'sqrt': 1, 'log': 1, 'abs': 1,
         'round': 1, 'trunc': 1, 'floor': 1, 'ceil': 1}
SOURCES = ('X', 'T', 'S', 'P', 'M', 'O')


class SpecError(Exception):
    pass


def E(text, **env):
    return _e(ast.parse(text.strip(), mode='eval').body, env)


def minimum(a, b):
    return g(cmp('lt', b, a), b, a)


def maximum(a, b):
    return g(cmp('lt', a, b), b, a)


def clip(x, lo, hi):
    return g(cmp('lt', x, lo), lo, g(cmp('gt', x, hi), hi, x))


def _e(n, env):
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            return boolean(v)
        if v is None:
            return NONE
        if isinstance(v, str):
            return string(v)
        return num(Fraction(repr(v)) if isinstance(v, float) else v)
    if isinstance(n, ast.Name):
        if n.id in env:
            v = env[n.id]
            return v if isinstance(v, T) else num(v) if isinstance(v, (int, float, Fraction)) else v
        if n.id in TIMES:
            return tim(n.id)
        if n.id == 'pi':
            return PI
        if n.id == 'nan':
            return NANT
        raise SpecError('name ' + n.id)
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in SOURCES:
        return col(n.value.id, n.attr)
    if isinstance(n, ast.Subscript):
        b = n.value
        off = ast.literal_eval(n.slice)
        if isinstance(b, ast.Attribute):
            return col(b.value.id, b.attr, off)
        raise SpecError('subscript')
    if isinstance(n, ast.BinOp):
        a, b = _e(n.left, env), _e(n.right, env)
        op = type(n.op)
        if op is ast.Add:
            return add(a, b)
        if op is ast.Sub:
            return sub(a, b)
        if op is ast.Mult:
            return mul(a, b)
        if op is ast.Div:
            return div(a, b)
        if op is ast.Pow:
            return power(a, b)
        if op is ast.Mod:
            return fn('mod', a, b)
        if op is ast.FloorDiv:
            return fn('floordiv', a, b)
    if isinstance(n, ast.UnaryOp):
        a = _e(n.operand, env)
        return lnot(a) if isinstance(n.op, ast.Not) else neg(a) if isinstance(n.op, ast.USub) else a
    if isinstance(n, ast.Compare):
        names = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
        out = []
        left = _e(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            r = _e(r, env)
            out.append(cmp(names[type(op)], left, r))
            left = r
        return land(*out)
    if isinstance(n, ast.BoolOp):
        vs = [_e(v, env) for v in n.values]
        return land(*vs) if isinstance(n.op, ast.And) else lor(*vs)
    if isinstance(n, ast.IfExp):
        return g(_e(n.test, env), _e(n.body, env), _e(n.orelse, env))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        f = n.func.id
        args = [_e(a, env) for a in n.args]
        if f in env and callable(env[f]):
            return env[f](*args)
        if f in FUNCS:
            return fn(f, *args)
        if f == 'min':
            return minimum(*args)
        if f == 'max':
            return maximum(*args)
        if f == 'clip':
            return clip(*args)
        if f == 'isnull':
            return isnull(args[0])
        if f == 'table':
            return app('lookup', args[0].args[0], *args[1:])
    raise SpecError(ast.dump(n))
