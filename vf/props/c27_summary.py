from types import SimpleNamespace as NS

from flixOpt.results import CalculationResults

from ..core import Given
from ..files import files
from ..reg import grid, harness
from ..sym import Sym
from .c22_aggregation import clustering
from .c23_again import KINDS, parts
from .c24_files import axis, reported, flat, key
from .common import *


def system(c, kind, n=3, unit='h'):
    fs = fx.FlowSystem(axis(unit, n))
    effects, comps = parts(c, kind, n=n)
    fs.add_elements(*effects, *comps)
    return fs


def investments(fs, want):
    """full name of every element with a size to decide: the size in the results"""
    out = {}
    for comp in fs.components.values():
        d = want['Components'][comp.label]
        for f in comp.inputs + comp.outputs:
            if isinstance(f.size, fx.InvestParameters):
                out[f'{comp.label}__{f.label}'] = d[f.label]['Investment']['size']
        if isinstance(getattr(comp, 'capacity_in_flow_hours', None), fx.InvestParameters):
            out[comp.label] = d['Investment']['size']
    return out


def check(c, fs, want, got, bound, name=''):
    """got: the summary, want: the full results"""
    effects = fs.effect_collection.effects
    c.holds(f'{name}one entry per effect', list(got['Effects']) == [f'{e.label} [{e.unit}]' for e in effects.values()])
    for e in effects.values():
        g, w = got['Effects'].get(f'{e.label} [{e.unit}]', {}), want['Effects'][e.label]
        for k, path in (('operation', 'operation'), ('invest', 'invest'), ('sum', 'all')):
            c.holds(f'{name}{e.label} {k}', Sym.lift(g[k]) == Sym.lift(w[path][f'{path}_sum']))
    c.holds(f'{name}penalty', Sym.lift(got['penalty']) == want['Effects']['penalty']['penalty_sum'])
    c.holds(f'{name}objective', Sym.lift(got['Objective']) == Sym.lift(want['Objective']))
    c.holds(f'{name}lower bound', Sym.lift(got['lower bound']) == bound)
    listed = got['buses with excess']
    c.holds(f'{name}no bus is listed twice', len(set(listed)) == len(listed) and set(listed) <= set(fs.buses))
    for label in fs.buses:
        b = want['Buses'][label]
        ex = [total(list(b[k])) for k in ('excess_input', 'excess_output') if k in b]
        c.holds(f'{name}{label}: excess is reported', implies(disj(*[x > 0.01 for x in ex]), label in listed))
        c.holds(f'{name}{label}: no excess is reported without', implies(conj(*[x <= 1e-6 for x in ex]), label not in listed))
    inv, no = got['Invest-Decisions']['invested'], got['Invest-Decisions']['not invested']
    sizes = investments(fs, want)
    c.holds(f'{name}every investment is listed once', set(inv) | set(no) == set(sizes) and not set(inv) & set(no))
    for k, x in sizes.items():
        x = Sym.lift(x)
        c.holds(f'{name}{k}: invested', implies(x > 0.01, k in inv))
        c.holds(f'{name}{k}: not invested', implies(x <= 1e-6, k in no))
        c.holds(f'{name}{k}: size', k in {**inv, **no} and Sym.lift({**no, **inv}[k]) == x)


@harness('C27', quick=grid(kind=KINDS), bounds='3 steps; results and summary, in memory and in the info file')
def summary(c, kind):
    fs = system(c, kind)
    s = Given(c, lo=0, hi=100)
    s.best_bound = c.real('bound', -100, 100)
    with files(c) as d:
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        calc.solve(s, save_results=d)
        want, got = calc.results(), calc.system_model.main_results
        res = CalculationResults('calc', d)
    check(c, fs, want, got, s.best_bound)
    check(c, fs, want, res.calculation_infos['Model']['Main Results'], s.best_bound, 'file: ')
    c.holds('name', res.calculation_infos['Calculation']['Name'] == 'calc')


def values(results):
    return {k: x for k, x in flat({g: results[g] for g in ('Components', 'Buses', 'Effects')}).items()}


@harness('C27', quick=grid(kind=['invest', 'storage', 'line', 'onoff'], how=['full', 'full, read in between', 'full, modelled again', 'full, saved']), bounds='2 steps, two solutions one after another')
def latest(c, kind, how):
    fs = system(c, kind, 2)
    s1, s2 = Given(c, lo=0, hi=100, ranges={'excess': (1, 50), 'Investment_size': (1, 50)}), Given(c, lo=0, hi=100)
    s2.calls, s2.best_bound = 1, c.real('bound', -100, 100)
    with files(c) as d:
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        calc.solve(s1, save_results=d if 'saved' in how else False)
        if 'read' in how:
            calc.results()
        if 'again' in how:
            calc.results()
            calc.do_modeling()
        calc.solve(s2, save_results=d if 'saved' in how else False)
        want = calc.results()
        if 'saved' in how:
            want = CalculationResults('calc', d).all_results
    check(c, fs, want, calc.system_model.main_results, s2.best_bound)
    reported(c, s2, values(want))


@harness('C27', quick=grid(kind=['storage', 'line'], how=['aggregated', 'segmented']), bounds='4-6 steps, two solutions one after another')
def again(c, kind, how):
    n = 4 if how == 'aggregated' else 6
    fs = system(c, kind, n, unit='regular')
    s1 = Given(c, lo=0, hi=100, ranges={'excess': (1, 50), 'Investment_size': (1, 50)})
    s2 = Given(c, lo=0, hi=100, ranges={'excess': (1, 50), 'Investment_size': (1, 50)})
    s2.calls = 5
    if how == 'aggregated':
        with clustering(c, [0, 1], 2):
            calc = fx.AggregatedCalculation('calc', fs, fx.AggregationParameters(hours_per_period=2, nr_of_periods=2, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True))
            calc.do_modeling()
            calc.solve(s1)
            calc.results()
            calc.solve(s2)
            want = calc.results()
            check(c, fs, want, calc.system_model.main_results, 0)
            reported(c, s2, values(want))
    else:
        calc = fx.SegmentedCalculation('calc', fs, 3, 0)
        calc.do_modeling_and_solve(s1, save_results=False)
        calc.results(combined_arrays=True)
        calc.do_modeling_and_solve(s2, save_results=False)
        want = calc.results(combined_arrays=True)
        got = flat({g: want[g] for g in ('Components', 'Buses', 'Effects')})
        c.holds('a value for every time step', all(x in (n, n + 1) for p, x in got.items() if p[-1] == 'length' and p[0] == 'Components'))
        have = {key(x) for x in got.values() if x is not None}
        for i, vals in enumerate(s2.clean):
            for k, x in vals.items():
                if 'flow_rate' in k:
                    c.holds(f'segment {i}: {k} is reported', key(x) in have)
