import contextlib
import re

from flixOpt import math_modeling as mm
from flixOpt.results import CalculationResults

from .. import sym
from ..core import Given
from ..files import files
from ..reg import grid, harness
from .c22_aggregation import run
from .c28_description import KINDS
from .c28_description import system as described_system
from .c31_equations import CONSTANTS, SUMMANDS, Stated, variables
from .common import *

"""the model as it is written out: what the text says of a variable, equation or inequation is what was stated"""

NUMBER = r'⟦\d+⟧|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?inf|nan'
TERM = re.compile(rf'(?P<sum>∑\((?:\.\.\+)?)?(?P<k>{NUMBER}) \* (?P<var>[^\[\]]*)\[(?P<i>\d+)\](?(sum)(?:\+\.\.)?\))')
ROW = re.compile(rf'^(?P<kind>EQ|INEQ|OBJ) *(?P<name>.*?) +(?:\[(?P<i>\d+)/(?P<n>\d+)\])? *: *(?P<const>{NUMBER}) (?P<op>=|>=) (?P<body>.*)$')
VAR = re.compile(r'^Var (?P<kind>bin|   ) x (?P<n>\d+) *"(?P<name>.*)" *: *(?:fixed=(?P<fixed>.*?)|min=(?P<min>.*?) *, max=(?P<max>.*?)) *$')


class Text:
    """numbers are written as references to their values"""

    def __init__(self):
        self.kept = []

    def keep(self, x):
        self.kept.append(x)
        return f'⟦{len(self.kept) - 1:05d}⟧'

    def number(self, s):
        return self.kept[int(s[1:-1])] if s.startswith('⟦') else float(s)

    def numbers(self, s):
        return [self.number(x) for x in re.findall(NUMBER, s)]


@contextlib.contextmanager
def text(c):
    t = Text()
    if not c.is_sym:
        yield t
        return
    old = {k: sym.Sym.__dict__[k] for k in ('__format__', '__repr__', '__str__')}
    sym.Sym.__format__ = lambda self, spec: t.keep(self)
    sym.Sym.__repr__ = sym.Sym.__str__ = lambda self: t.keep(self)
    try:
        yield t
    finally:
        for k, f in old.items():
            setattr(sym.Sym, k, f)


def equal(c, got, want):
    if c.is_sym or not isinstance(got, float):
        return got == want
    return abs(got - float(want)) <= 1e-5 * max(1, abs(float(want)))


def states(c, t, line, e, i):
    """the line states row i of the equation e"""
    name = f'{e.name} row {i}'
    r = ROW.match(line)
    c.holds(f'{name}: is a row', r is not None)
    c.holds(f'{name}: name', r['kind'] == {'eq': 'EQ', 'ineq': 'INEQ'}.get(e.kind, r['kind']) and r['name'] == e.name)
    c.holds(f'{name}: number', e.kind == 'objective' or (r['i'], r['n']) == (str(i + 1), str(e.length)))
    c.holds(f'{name}: relation', r['op'] == ('>=' if e.kind == 'ineq' else '='))
    const = 0
    for x in e.consts:
        const = const + (x[i] if len(x) > 1 else x[0])
    c.holds(f'{name}: constant', equal(c, t.number(r['const']), const))
    got = list(TERM.finditer(r['body']))
    c.holds(f'{name}: nothing else', set(TERM.sub('', r['body'])) <= set(' +'))
    c.holds(f'{name}: number of terms', len(got) == len(e.parts))
    for g, (terms, as_sum) in zip(got, e.parts):
        c.holds(f'{name}: sum or not', bool(g['sum']) == as_sum)
        at = terms if as_sum else [terms[i if len(terms) > 1 else 0]]
        c.holds(f'{name}: term', disj(*[equal(c, t.number(g['k']), k) for var, j, k in at if (var, j) == (g['var'], int(g['i']))], False))


@harness('C34', quick=grid(kind=['eq', 'ineq'], what=list(SUMMANDS), const=['none', 'scalar', 'two series'], n=[3]) + grid(kind=['eq', 'ineq'], what=['plain', 'sum', 'single index'], const=[k for k in CONSTANTS if k not in ('none', 'scalar', 'two series')], n=[2]),
         thorough=grid(kind=['eq', 'ineq'], what=list(SUMMANDS), const=list(CONSTANTS), n=[2, 5]), bounds='one equation of 0-4 summands with 0-2 constants, 2-3 steps (thorough 5), each of its rows, all values')
def equation(c, kind, what, const, n):
    vs, _, _ = variables(c, n)
    e = Stated(c, n, 'e of it', kind)
    for s in SUMMANDS[what]:
        e.add(vs, *s)
    for k in CONSTANTS[const]:
        e.constant(k)
    with text(c) as t:
        states(c, t, e.eq.description(), e, 0)
        for i in range(e.length):
            states(c, t, e.eq.description(i), e, i)
        states(c, t, e.eq.description(e.length + 1), e, e.length - 1)


@harness('C34', quick=grid(n=[2, 3]), thorough=grid(n=[4]), bounds='variables of nine kinds, 2-3 steps, all limits and fixed values')
def variable(c, n):
    vs, bounds, fixed = variables(c, n)
    for name, v in vs.items():
        with text(c) as t:
            r = VAR.match(v.description(max_length_ts=10**6))
            c.holds(f'{name}: is a variable', r is not None)
            c.holds(f'{name}: name and length', (r['name'], r['n']) == (name, str(v.length)))
            c.holds(f'{name}: kind', (r['kind'] == 'bin') == (name in ('b', 'b1')))
            c.holds(f'{name}: fixed or not', (r['fixed'] is not None) == (name in fixed))
            parts = [('fixed', fixed[name])] if name in fixed else zip(('min', 'max'), bounds[name])
            for what, want in parts:
                if want is None or v.is_binary and r[what] == 'None':
                    c.holds(f'{name}: no {what}', r[what] == 'None')
                    continue
                got = t.numbers(r[what])
                c.holds(f'{name}: number of values, {what}', len(got) in (1, v.length))
                for i, w in enumerate(want):
                    c.holds(f'{name}: {what} {i}', equal(c, got[i if len(got) > 1 else 0], w))


def lines(d):
    """all lines of a description, by the names of the elements they are given for"""
    if isinstance(d, str):
        return [d]
    return [x for v in (d.values() if isinstance(d, dict) else d) for x in lines(v)]


def name_of(line):
    r = ROW.match(line) or VAR.match(line)
    return r and r['name']


def plain(line):
    return re.sub(r'⟦\d*⟧?', '#', line)


def row_names(m):
    """the names of the constraints that the solver has been given, without those of the limits of variables"""
    return sorted({r[0].rsplit('__', 1)[0] for r in m.rows if re.search(r'__\d+\[\d+\]$', r[0]) and not re.match('(lb|ub|fix) ', r[0])})


@harness('C34', quick=grid(kind=KINDS), bounds='the systems with all kinds of components, all values')
def model(c, kind):
    """everything of the model is written out once, at the element it belongs to, in the nested and in the flat form"""
    s, fs = described_system(c, kind)
    written(c, fs, c.model(fs))


@harness('C34', quick=grid(kind=['flow', 'onoff', 'storage'], free=[0, 50]), bounds='4 steps in 2 periods, alike')
def aggregated(c, kind, free):
    fs, _, _, m = run(c, kind, 4, 2, [0, 0], 'binary' if free else 'data', free, bool(free))
    written(c, fs, m)
    c.holds('others', len(lines(m.calc.system_model.description_of_constraints()['Others'])) > 0 or kind != 'onoff')


def written(c, fs, m):
    sm = m.calc.system_model
    constraints, variables = sorted(x.label for x in sm.all_constraints.values()), sorted(x.label for x in sm.all_variables.values())
    with text(c):
        for what, names, get in (('constraints', constraints, sm.description_of_constraints), ('variables', variables, sm.description_of_variables)):
            nested, flat = get(), get(structured=False)
            if what == 'constraints':
                goals = [d.pop('Objective') for d in (nested, flat)]
                c.holds('objective', all(name_of(g) == sm.objective.label for g in goals))
            for form, d in (('nested', nested), ('flat', flat)):
                c.holds(f'{what}, {form}: each once', sorted(str(name_of(x)) for x in lines(d)) == names)
                c.holds(f'{what}, {form}: all groups', set(d['Components']) == set(fs.components) and set(d['Buses']) == set(fs.buses))
                for group in ('Components', 'Buses'):
                    for label, x in d[group].items():
                        c.holds(f'{what}, {form}: at their element', all(name_of(y).startswith(label + '_') for y in lines(x)))
            c.holds(f'{what}: the flat form says the same', sorted(map(plain, lines(nested))) == sorted(map(plain, lines(flat))))
    solver = row_names(m)
    if set(solver) & set(constraints):  # as long as the solver is told their names
        c.holds('constraints of the solver are those written out', solver == constraints)
    for x in [*fs.components.values(), *fs.buses.values(), *fs.effect_collection.effects.values()]:
        own = x.model
        eqs = [y for y in own.all_constraints.values() if isinstance(y, mm.Equation)]
        ineqs = [y for y in own.all_constraints.values() if isinstance(y, mm.Inequation)]
        got = own.overview_of_model_size
        vs = list(own.all_variables.values())
        want = [len(eqs), sum(y.length for y in eqs), len(ineqs), sum(y.length for y in ineqs), len(vs), sum(y.length for y in vs)]
        c.holds(f'size of the model of {x.label}', list(got.values()) == want)


@harness('C34', quick=grid(kind=KINDS), bounds='the file of a calculation of the systems with all kinds of components')
def saved(c, kind):
    s, fs = described_system(c, kind)
    given = Given(c, lo=0, hi=50, ranges={'excess': (1, 50), 'Investment_size': (1, 50)})
    with files(c) as d, text(c):
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        calc.solve(given, save_results=d)
        got = CalculationResults('calc', d).calculation_infos['Model']
        sm = calc.system_model
        for what, want in (('Constraints', sm.description_of_constraints()), ('Variables', sm.description_of_variables())):
            same = nested_plain(got[what]) == nested_plain(want)
            c.holds(f'{what}: as in memory', same)


def nested_plain(d):
    return plain(d) if isinstance(d, str) else {k: nested_plain(v) for k, v in d.items()} if isinstance(d, dict) else [nested_plain(x) for x in d]
