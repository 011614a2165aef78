import numpy as np

from flixOpt import calculation
from flixOpt.results import CalculationResults

from ..core import Given
from ..files import files
from ..reg import grid, harness
from ..sym import Sym
from .c23_again import KINDS, parts
from .c22_aggregation import clustering
from .common import *

N = 3


def axis(unit, n):
    """time stamps (concrete) in various resolutions, regular or not"""
    if unit == 'regular':
        return np.datetime64('2020-02-29T00', 'h') + np.arange(n)
    steps = {'h': [1, 2], 'm': [15, 45], 's': [900, 1800], 'ms': [500, 1500], 'us': [10**6, 7], 'ns': [10**9, 10**9 * 3600 + 1000], 'D': [1, 1]}[unit]
    t = [0]
    for i in range(n - 1):
        t.append(t[-1] + steps[i % 2])
    return np.datetime64('2020-02-29', unit) + np.array(t).astype(f'timedelta64[{unit}]')


def flat(d, p=()):
    """all values of a nested result structure by path (an entry of an array: path + index)"""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, p + (k,)))
            continue
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (np.ndarray, list, tuple)):
            out[p + (k, 'length')] = len(v)
            for i, x in enumerate(np.asarray(v, dtype=object).view(np.ndarray).tolist()):
                out[p + (k, i)] = x
        else:
            out[p + (k,)] = v
    return out


def system(c, kind, unit, n=N):
    ts = axis(unit, n)
    fs = fx.FlowSystem(ts)
    effects, comps = parts(c, kind, n=n)
    fs.add_elements(*effects, *comps)
    return fs


def compare(c, name, got, want):
    c.holds(f'{name}: same entries', set(got) == set(want))
    for k in want:
        if k in got:
            a, b = got[k], want[k]
            c.holds(f'{name}: {k}', (a is None) == (b is None) and (a is None or a == b))


def key(x):
    return Sym.lift(x).key()


def check(c, res, want, times):
    """res: loaded results, want: as reported by the calculation"""
    want = dict(want)
    want.pop('Time')
    got = dict(res.all_results)
    got.pop('Time')
    got, want = flat(got), flat(want)
    c.holds('same entries', set(got) == set(want))
    for k in want:
        if k in got:
            a, b = got[k], want[k]
            c.holds(f'{k}', (a is None) == (b is None) and (a is None or a == b))
    c.holds('time axis', list(res.time_with_end.astype('datetime64[us]')) == list(np.asarray(times).astype('datetime64[us]')))
    c.holds('time axis without end', list(res.time) == list(res.time_with_end[:-1]))
    return got


def reported(c, s, got):
    """every value of the solver can be found"""
    have = {key(x): x for x in got.values() if x is not None and not isinstance(x, str)}
    for vals in s.clean:
        for k, x in vals.items():
            c.holds(f'{k} is reported', key(x) in have or disj(*[Sym.lift(x) == h for h in have.values()]))


@harness('C24', quick=grid(kind=KINDS, unit=['h'], near=[False, True]) + grid(kind=['onoff'], unit=['m', 's', 'ms', 'us', 'ns', 'D'], near=[False]), bounds='3 steps')
def full(c, kind, unit, near):
    fs = system(c, kind, unit)
    with files(c) as d:
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        s = Given(c, near=near, lo=0, hi=100)
        calc.solve(s, save_results=d)
        want = calc.results()
        res = CalculationResults('calc', d)
    got = check(c, res, want, fs.time_series_with_end)
    reported(c, s, got)


@harness('C24', quick=grid(kind=['onoff', 'converter', 'storage', 'line', 'sinks'], shape=[(5, 3, 0), (5, 3, 1)]) + grid(kind=['converter', 'storage', 'line', 'sinks'], shape=[(6, 3, 2)]), bounds='5-6 steps in 2 segments of 3 (+ 0-2)')
def segmented(c, kind, shape):
    n, length, overlap = shape
    fs = system(c, kind, 'm', n)
    with files(c) as d:
        calc = fx.SegmentedCalculation('calc', fs, length, overlap)
        s = Given(c, near=True, lo=0, hi=100)
        calc.do_modeling_and_solve(s, save_results=d)
        want, parts_ = calc.results(combined_arrays=True), calc.results(individual_results=True)
        scalars = calc.results(combined_scalars=True)
        res = CalculationResults('calc', d)
        with open(f'{d}/calc_results_extra.json', encoding='utf-8') as f:
            extra = calculation.json.load(f)
    got = check(c, res, want, fs.time_series_with_end)
    entries = [p for p in got if p[0] in ('Components', 'Buses')]
    c.holds('a value for every time step', all(got[p] in (n, n + 1) for p in entries if p[-1] == 'length') and len(entries) > 0)
    for name, a, b in [('segments', extra['Individual Results'], parts_), ('scalars', extra['Skalar Results'], scalars)]:
        a, b = flat(a), flat(b)
        c.holds(f'{name}: same entries', set(a) == set(b))
        for k in b:
            if 'Time' not in k and k in a:
                c.holds(f'{name}: {k}', (a[k] is None) == (b[k] is None) and (b[k] is None or a[k] == b[k]))


@harness('C24', quick=grid(kind=['boiler', 'storage', 'converter'], order=[[0, 0], [0, 1]]) + grid(kind=['converter'], order=[[0, 1, 0]]), bounds='4-6 steps, 2-3 periods')
def aggregated(c, kind, order):
    fs = system(c, kind, 'regular', 2 * len(order))
    with files(c) as d, clustering(c, order, 2):
        calc = fx.AggregatedCalculation('calc', fs, fx.AggregationParameters(hours_per_period=2, nr_of_periods=2, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True,
                                                                              percentage_of_period_freedom=50, penalty_of_period_freedom=1))
        calc.do_modeling()
        s = Given(c, near=True, lo=0, hi=100)
        calc.solve(s, save_results=d)
        want = calc.results()
        res = CalculationResults('calc', d)
    got = check(c, res, want, fs.time_series_with_end)
    reported(c, s, got)


@harness('C24', quick=grid(kind=['onoff', 'storage', 'boiler'], window=[(0, 2), (1, 4)]), bounds='part of 5 steps')
def window(c, kind, window):
    fs = system(c, kind, 'us', 5)
    idx = range(*window)
    with files(c) as d:
        calc = fx.FullCalculation('calc', fs, time_indices=idx)
        calc.do_modeling()
        s = Given(c, near=True, lo=0, hi=100)
        calc.solve(s, save_results=d)
        want = calc.results()
        res = CalculationResults('calc', d)
    check(c, res, want, fs.time_series_with_end[window[0]:window[1] + 1])
