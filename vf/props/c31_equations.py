from types import SimpleNamespace as NS

import numpy as np
from flixOpt import math_modeling as mm

from .. import core
from ..core import Model
from ..reg import grid, harness
from .common import *

"""the layer of variables, equations and inequations itself: whatever is stated in it reaches the solver, and nothing else"""


def translated(c, math):
    math.translate_to_modeling_language()
    calc = NS(system_model=math)
    m = core.build_sym(calc) if c.is_sym else core.build_num(calc, c.serial)
    c.serial += 1
    c.models.append(m)
    return m


def series(c, name, n, lo, hi):
    xs = [c.real(f'{name}{i}', lo, hi) for i in range(n)]
    return xs, c.pack(xs)


# what is said of a variable: name -> (length, binary, lower, upper, fixed); n stands for the number of steps
def variables(c, n):
    lo, lo_a = series(c, 'lo', n, -5, -1)
    up, up_a = series(c, 'up', n, 1, 5)
    fi, fi_a = series(c, 'fi', n, -1, 1)
    s = c.real('s', -5, -1)
    f1 = c.real('f1', -3, 3)
    say = [('x', n, False, lo_a, up_a, None), ('y', 1, False, s, None, None), ('z', n, False, s, 7, None), ('u', n, False, None, None, None), ('b', n, True, None, None, None), ('b1', 1, True, None, None, None),
           ('f', n, False, lo_a, up_a, fi_a), ('f1', 1, False, None, 9, f1), ('g', n, False, None, None, f1)]
    bounds = {'x': (lo, up), 'y': ([s], None), 'z': ([s] * n, [7] * n), 'u': (None, None), 'b': ([0] * n, [1] * n), 'b1': ([0], [1])}
    fixed = {'f': fi, 'f1': [f1], 'g': [f1] * n}
    out = {}
    for name, length, binary, lower, upper, value in say:
        kind = mm.VariableTS if length > 1 and name != 'z' else mm.Variable
        out[name] = kind(name, length, None, binary, value, lower, upper)
    return out, bounds, fixed


def entries(c, m, vs, bounds, fixed):
    """the values of the variables, and the rows of what was said of them"""
    val, rows = {}, []
    for name, var in vs.items():
        got = m.v(name)
        val[name] = got if isinstance(got, list) else [got]
        c.holds(f'number of values of {name}', len(val[name]) == var.length)
        if name in fixed:
            for g, w in zip(val[name], fixed[name], strict=True):
                c.holds(f'value of {name}', g == w)
            continue
        low, high = bounds[name]
        for i, v in enumerate(val[name]):
            if low is not None:
                rows.append((f'lower {name} {i}', '<=', low[i] - v))
            if high is not None:
                rows.append((f'upper {name} {i}', '<=', v - high[i]))
    return val, rows


class Stated:
    """an equation, stated in the layer and as rows"""

    def __init__(self, c, n, name, kind):
        self.c, self.n, self.name, self.kind = c, n, name, kind
        self.eq = {'eq': mm.Equation, 'ineq': mm.Inequation, 'objective': lambda k: mm.Equation(k, is_objective=True)}[kind](name)
        self.parts, self.consts, self.length = [], [], 1

    def factor(self, kind, length, var):
        c, k = self.c, f'{self.name}.k{len(self.parts)}.'
        lo, hi = (0.25, 4) if var == 'x' else (-4, -0.25)  # factors of the same variable do not cancel out
        if kind == 'int':
            return [3], 3
        if kind == 'real':
            v = c.real(k, lo, hi)
            return [v], v
        if kind == 'one':
            return series(c, k, 1, lo, hi)
        return series(c, k, length, lo, hi)

    def add(self, vs, var, factor='real', idx=None, as_sum=False):
        n = self.n
        indices = {None: None, 'int': n - 1, 'last': [n - 1], 'list': list(range(n - 1, -1, -1)), 'range': range(0, n), 'array': np.arange(n)[::-1], 'part': range(1, n), 'first': [0], 'repeat': [0] * n}[idx]
        where = list(range(vs[var].length)) if indices is None else [indices] if isinstance(indices, int) else [int(i) for i in indices]
        ks, given = self.factor(factor, max(len(where), 1) if factor != 'long' else n, var)
        self.eq.add_summand(vs[var], given, indices, as_sum)
        size = max(len(ks), len(where))
        terms = [(var, where[i if len(where) > 1 else 0], ks[i if len(ks) > 1 else 0]) for i in range(size)]
        self.parts.append((terms, as_sum))
        self.length = max(self.length, 1 if as_sum else size)

    def constant(self, kind):
        c, k = self.c, f'{self.name}.c{len(self.consts)}.'
        if kind == 'real':
            v = c.real(k, -9, 9)
            self.consts.append([v])
            self.eq.add_constant(v)
        elif kind == 'int':
            self.consts.append([2])
            self.eq.add_constant(2)
        else:
            xs, a = series(c, k, self.n, -9, 9)
            self.consts.append(xs)
            self.eq.add_constant(a)
            self.length = max(self.length, self.n)

    def rows(self, val):
        for i in range(self.length):
            left = 0
            for terms, as_sum in self.parts:
                for var, j, k in terms if as_sum or len(terms) == 1 else [terms[i]]:
                    left = left + val[var][j] * k
            for x in self.consts:
                left = left - (x[i] if len(x) > 1 else x[0])
            yield (f'{self.name} {i}', '<=' if self.kind == 'ineq' else '==', left)


SUMMANDS = {
    'plain': [('x', 'real', None, False)],
    'series': [('x', 'arr', None, False), ('y', 'real', None, False)],
    'scalar variable, series of factors': [('y', 'long', None, False), ('u', 'real', None, False)],
    'scalar first': [('y', 'real', None, False), ('x', 'int', None, False), ('b1', 'one', None, False)],
    'reversed': [('x', 'arr', 'list', False), ('z', 'real', 'array', False)],
    'index': [('x', 'real', 'int', False), ('u', 'arr', None, False)],
    'index with series of factors': [('x', 'long', 'last', False), ('b', 'arr', 'range', False)],
    'single index': [('x', 'real', 'int', False), ('z', 'one', 'first', False)],
    'twice the same': [('x', 'real', None, False), ('x', 'arr', 'list', False), ('x', 'real', 'first', False)],
    'sum': [('x', 'real', None, True), ('y', 'real', None, False)],
    'sum of products': [('x', 'arr', None, True), ('u', 'arr', 'list', True)],
    'sum of part': [('x', 'arr', 'part', True), ('b', 'int', 'part', True)],
    'sum and series': [('x', 'arr', None, True), ('u', 'real', None, False)],
    'sum of single index': [('x', 'real', 'int', True), ('y', 'int', None, True)],
    'sum of series of factors': [('x', 'long', 'last', True), ('z', 'real', None, False)],
    'repeated index': [('x', 'arr', 'repeat', False), ('u', 'arr', 'repeat', True)],
    'fixed': [('f', 'arr', None, False), ('f1', 'real', None, False), ('g', 'real', 'list', False), ('y', 'real', None, False)],
    'fixed sum': [('f', 'arr', None, True), ('x', 'arr', None, False), ('g', 'int', None, True)],
    'binary': [('b', 'arr', None, False), ('b1', 'real', None, False), ('b', 'real', 'first', False), ('u', 'real', None, False)],
    'none': [],
}
CONSTANTS = {'none': [], 'scalar': ['real'], 'integer': ['int'], 'series': ['arr'], 'scalar and series': ['real', 'arr'], 'series and scalar': ['arr', 'int'], 'two series': ['arr', 'arr'], 'two': ['int', 'real']}


def objective(c, n, vs):
    goal = Stated(c, n, 'goal', 'objective')
    goal.add(vs, 'y', 'int')
    goal.add(vs, 'x', 'arr', None, True)
    goal.add(vs, 'x', 'real', 'last')
    goal.add(vs, 'f1', 'real')
    return goal


def value(goal, val):
    out = 0
    for terms, as_sum in goal.parts:
        for var, j, k in terms:
            out = out + val[var][j] * k
    return out


def compare(c, m, val, rows, goal, name):
    both = {'Others': m.results}
    c.same(Model(m.rows, m.objective, both), Model(rows, value(goal, val), both), name)


@harness('C31', quick=grid(kind=['eq', 'ineq'], what=[w for w in SUMMANDS if w != 'none'], const=['scalar', 'series'], n=[3]) + grid(kind=['eq', 'ineq'], what=['plain', 'sum', 'single index'], const=[k for k in CONSTANTS if k not in ('scalar', 'series')], n=[2]),
         thorough=grid(kind=['eq', 'ineq'], what=[w for w in SUMMANDS if w != 'none'], const=list(CONSTANTS), n=[2, 5]),
         bounds='one equation of 1-4 summands with 0-2 constants, 2-3 steps (thorough 5), nine kinds of variables, all values')
def rows(c, kind, what, const, n):
    vs, bounds, fixed = variables(c, n)
    math = mm.MathModel('m')
    math.add(*vs.values())
    e = Stated(c, n, 'e', kind)
    for s in SUMMANDS[what]:
        e.add(vs, *s)
    for k in CONSTANTS[const]:
        e.constant(k)
    goal = objective(c, n, vs)
    math.add(e.eq)
    math.add(goal.eq)
    m = translated(c, math)
    val, rs = entries(c, m, vs, bounds, fixed)
    c.holds('number of rows', e.eq.length == e.length)
    compare(c, m, val, rs + list(e.rows(val)), goal, 'the rows of the solver are those stated')


@harness('C31', quick=grid(n=[2, 3], order=['as is', 'reversed', 'mixed']), thorough=grid(n=[5], order=['as is', 'reversed', 'mixed']), bounds='ten equations and inequations at once, in three orders')
def several(c, n, order):
    vs, bounds, fixed = variables(c, n)
    math = mm.MathModel('m')
    parts = []
    for i, (name, ss) in enumerate(list(SUMMANDS.items())[:10]):
        e = Stated(c, n, f'e{i}', ['eq', 'ineq'][i % 2])
        for s in ss:
            e.add(vs, *s)
        e.constant(['real', 'arr'][(i // 2) % 2])
        parts.append(e)
    goal = objective(c, n, vs)
    todo = [*vs.values(), *(e.eq for e in parts), goal.eq]
    if order == 'reversed':
        todo = todo[::-1]
    elif order == 'mixed':
        todo = todo[1::2] + todo[::2]
    for x in todo[:3]:
        math.add(x)
    math.add(*todo[3:])
    m = translated(c, math)
    val, rs = entries(c, m, vs, bounds, fixed)
    for e in parts:
        rs += e.rows(val)
    compare(c, m, val, rs, goal, 'the rows of the solver are those stated')
    size(c, m, math, vs, parts)


def size(c, m, math, vs, parts):
    """the numbers reported of the model"""
    eqs, ineqs = [e for e in parts if e.kind == 'eq'], [e for e in parts if e.kind == 'ineq']
    want = {'No. of Eqs.': len(eqs), 'No. of Eqs. (single)': sum(e.length for e in eqs), 'No. of Ineqs.': len(ineqs), 'No. of Ineqs. (single)': sum(e.length for e in ineqs),
            'No. of Vars.': len(vs), 'No. of Vars. (single)': sum(v.length for v in vs.values()), 'No. of Vars. (TS)': sum(isinstance(v, mm.VariableTS) for v in vs.values())}
    math.solver = NS(log=None)
    got = math.infos['Model Size']
    for k, w in want.items():
        c.holds(f'reported {k}', got.get(k) == w)


@harness('C31', quick=grid(what=['lower', 'upper', 'both', 'none'], value=['scalar', 'series'], limit=['scalar', 'series']), bounds='3 entries, all values and limits')
def fixed_values(c, what, value, limit):
    """a fixed value outside of the limits is refused, any other is not"""
    n = 3
    f, f_a = series(c, 'f', n, -9, 9) if value == 'series' else ([x := c.real('f', -9, 9)] * n, x)
    lo, lo_a = series(c, 'lo', n, -9, 9) if limit == 'series' else ([x := c.real('lo', -9, 9)] * n, x)
    up, up_a = series(c, 'up', n, -9, 9) if limit == 'series' else ([x := c.real('up', -9, 9)] * n, x)
    low, high = what in ('lower', 'both'), what in ('upper', 'both')
    refused = c.raises(lambda: mm.Variable('x', n, None, False, f_a, lo_a if low else None, up_a if high else None))
    bad = [a > b for a, b in zip(lo, f)] * low + [a > b for a, b in zip(f, up)] * high
    c.holds('refused exactly if outside', iff(refused, disj(*bad)) if bad else not refused)


@harness('C31', quick=grid(what=['summand', 'series', 'constant', 'factor', 'one factor', 'entries', 'no variable', 'sum'], kind=['eq', 'ineq'], size=[2, 4]), bounds='parts of 2 and 4 entries in an equation of 3')
def lengths(c, what, kind, size):
    """parts of different length are refused"""
    def stated(*more):
        eq = (mm.Equation if kind == 'eq' else mm.Inequation)('e')
        x, y, v, z = mm.Variable('x', 3), mm.Variable('y', size), mm.Variable('v', 1), mm.Variable('z', 9)
        good = (lambda: eq.add_summand(v, one), lambda: eq.add_summand(y, k2, None, True), lambda: eq.add_constant(one), lambda: eq.add_summand(x, k3), lambda: eq.add_summand(y, one, 1), lambda: eq.add_summand(v, k3), lambda: eq.add_constant(k3))
        bad = {'summand': lambda: eq.add_summand(y, one), 'series': lambda: eq.add_summand(y, k2), 'constant': lambda: eq.add_constant(k2), 'factor': lambda: eq.add_summand(x, k2), 'one factor': lambda: eq.add_summand(v, k2),
               'entries': lambda: eq.add_summand(z, one, range(size)), 'no variable': lambda: eq.add_summand('x', 1), 'sum': lambda: eq.add_summand(x, k2, None, True)}
        for f in good:
            f()
        for k in more:
            bad[k]()
        math = mm.MathModel('m')
        math.add(x, y, v, z, eq)
        goal = mm.Equation('objective', is_objective=True)
        goal.add_summand(v, 1)
        math.add(goal)
        return lambda: translated(c, math)

    k3, k2, one = series(c, 'k', 3, 1, 5)[1], series(c, 'l', size, 1, 5)[1], c.real('o', 1, 5)
    c.holds('fitting parts are accepted', not c.raises(stated))
    c.holds('refused', c.raises(lambda: stated(what)()))
