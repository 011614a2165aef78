from contextlib import contextmanager

import numpy as np
import pandas as pd

from .. import pyostub, sym
from ..core import Model
from ..reg import grid, harness
from ..sym import Sym
from .common import *


class Clustering:
    """stands for tsam: any assignment of periods to clusters, any aggregated values"""

    def __init__(self, c, order, plen):
        self.c, self.order, self.plen, self.calls = c, order, plen, []
        self.given = {}

    def name(self, values, col):
        """which of the given series a column holds"""
        for k, xs in self.given.items():
            if len(xs) == len(values) and all((x - y).t == {} if isinstance(x, Sym) else x == y for x, y in zip(xs, values)):
                return k
        return col

    def TimeSeriesAggregation(self, data, **k):
        me, c = self, self.c
        order, plen = self.order, self.plen

        class Result:
            clusterOrder = list(order)
            clusterPeriodNoOccur = {x: order.count(x) for x in sorted(set(order))}
            stepIdx = list(range(plen))
            timeSeries = data
            extremePeriods = {}

            def createTypicalPeriods(self):
                pass

            def predictOriginalData(self):
                return pd.DataFrame({col: list(me.values(me.name(data[col].tolist(), col), len(data.index))) for col in data.columns}, index=data.index)

        self.calls.append((data, k))
        return Result()

    def values(self, name, n):
        lo, hi = LIMITS.get(name, (0.1, 5))
        return [self.c.real(f'agg.{name}.{i}', lo, hi) for i in range(n)]


LIMITS = dict(hi=(0.5, 1), lo=(0, 0.5))


@contextmanager
def clustering(c, order, plen):
    from flixOpt import aggregation

    t = Clustering(c, order, plen)
    old = aggregation.tsam, aggregation.Aggregation.plot
    aggregation.tsam, aggregation.Aggregation.plot = t, lambda self, *a, **k: None
    try:
        yield t
    finally:
        aggregation.tsam, aggregation.Aggregation.plot = old


def order_of(c, periods, clusters):
    """every assignment (explored case by case)"""
    out = []
    for p in range(periods):
        k = 0
        while k < clusters - 1 and not bool(c.flag(f'cl{p}.{k}') == 1):
            k += 1
        out.append(k)
    return out


def build(c, kind, n, agg=None, plen=2):
    """agg: use these values instead of the given ones (label -> values)"""
    ts, dt = c.time(n, equal=True)
    fs = fx.FlowSystem(ts, previous_dt_in_hours=c.real('pdt', 0.25, 24))
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs)
    bus = fx.Bus('b', excess_penalty_per_flow_hour=2)

    given = {}

    def arr(name, tsd=None):
        lo, hi = LIMITS.get(name, (0.1, 5))
        given[name] = full = [c.real(f'{name}{i}', lo, hi) for i in range(n)]
        for x, y in zip(full, full[1:]):
            c.assume(x != y)
        if agg is not None:
            a = agg(name, n)
            for x, y in zip(a, a[1:]):
                c.assume(x != y)
            return c.pack(a)
        a = c.pack(full)
        return fx.TimeSeriesData(a, **tsd) if tsd is not None else a

    if kind == 'flow':
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, relative_maximum=arr('hi'), relative_minimum=0.01,
                                                      effects_per_flow_hour=arr('e'))))
    elif kind == 'onoff':
        on = fx.OnOffParameters(effects_per_switch_on=3)
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, relative_minimum=arr('lo'), on_off_parameters=on, previous_flow_rate=3)))
    elif kind in ('storage', 'two'):
        fs.add_elements(fx.Storage('u', charging=fx.Flow('ch', bus, size=10), discharging=fx.Flow('dis', bus, size=10), capacity_in_flow_hours=50,
                                   initial_charge_state=c.real('q0', 10, 20), prevent_simultaneous_charge_and_discharge=False))
    elif kind == 'converter':
        a, q, r = fx.Flow('a', bus, size=10), fx.Flow('q', fx.Bus('b2', excess_penalty_per_flow_hour=1), size=10), fx.Flow('r', fx.Bus('b3', excess_penalty_per_flow_hour=1), size=10)
        fs.add_elements(fx.LinearConverter('u', inputs=[a], outputs=[q, r], conversion_factors=[{a: arr('ca'), q: arr('cq')}, {a: arr('cb'), r: 1}]))
    elif kind == 'segments':
        a, q = fx.Flow('a', bus, size=10), fx.Flow('q', fx.Bus('b2', excess_penalty_per_flow_hour=1), size=10)
        fs.add_elements(fx.LinearConverter('u', inputs=[a], outputs=[q], segmented_conversion_factors={a: [(arr('a0'), 6), (7, 9)], q: [(1, 2), (arr('q0'), arr('q1'))]}))
    elif kind == 'line':
        fs.add_elements(fx.Transmission('u', in1=fx.Flow('i1', bus, size=10), out1=fx.Flow('o1', fx.Bus('b2', excess_penalty_per_flow_hour=1), size=10), relative_losses=arr('lo'), absolute_losses=arr('al')))
    if kind == 'two':
        fs.add_elements(fx.Source('v', source=fx.Flow('f', bus, size=10, effects_per_flow_hour=arr('e'))))
    fs.given = given
    return fs, dt


def entries(m, comp):
    """the time series of a component: path -> (values, binary)"""
    out = {}

    def go(d, p):
        for k, v in d.items():
            if isinstance(v, dict):
                go(v, p + (k,))
            elif isinstance(v, np.ndarray) and v.ndim == 1 and len(v) > 1:
                xs = [Sym.lift(x) for x in v.tolist()]
                at = [list(x.atoms()) for x in xs]
                if all(len(a) == 1 and a[0].kind in pyostub.DECISION for a in at):
                    out[p + (k,)] = (xs, all(a[0].kind == 'b' for a in at))

    go(m.get('Components', comp), ('Components', comp))
    return out


def pairs(order, plen, n):
    out = []
    first = {}
    for p, k in enumerate(order):
        if k not in first:
            first[k] = p
            continue
        for i in range(1, plen):
            if p * plen + i < n:
                out.append((first[k] * plen + i, p * plen + i))
    return out


def run(c, kind, n, plen, order, what, free=0, pen=0, comps=None, storage=True):
    fs, dt = build(c, kind, n, plen=plen)
    with clustering(c, order, plen) as t:
        t.given = fs.given
        par = fx.AggregationParameters(hours_per_period=dt[0] * plen, nr_of_periods=len(set(order)), fix_storage_flows=storage,
                                       aggregate_data_and_fix_non_binary_vars=what == 'data', percentage_of_period_freedom=free, penalty_of_period_freedom=pen)
        cl = None if comps is None else [fs.components[x] for x in comps]
        calc = fx.AggregatedCalculation('agg', fs, par, components_to_clusterize=cl)
        m = c.model(fs, calc=calc)
    return fs, dt, t, m


@harness('C22', quick=grid(kind=['flow', 'onoff', 'storage'], what=['data', 'binary'], size=[(4, 2, 2), (6, 2, 2), (6, 3, 2), (5, 2, 2)])
         + grid(kind=['converter', 'segments', 'line'], what=['data'], size=[(4, 2, 2)])
         + grid(kind=['two'], what=['data'], size=[(4, 2, 2)], comps=[['u'], ['v'], ['u', 'v']]) + grid(kind=['two', 'storage'], what=['data'], size=[(4, 2, 2)], storage=[False]),
         thorough=grid(kind=['flow', 'onoff', 'storage'], what=['data', 'binary'], size=[(8, 2, 3), (9, 3, 2), (8, 4, 2), (8, 3, 3)]),
         bounds='4-6 steps (thorough 9) in 2-3 (4) periods of 2-3 (4) steps, every assignment to 2 (3) clusters, any aggregated values')
def alike(c, kind, what, size, comps=None, storage=True):
    n, plen, k = size
    order = order_of(c, -(-n // plen), k)
    fs, dt, t, m = run(c, kind, n, plen, order, what, comps=comps, storage=storage)
    plain = c.model(build(c, kind, n, agg=t.values if what == 'data' else None)[0])
    same_as(c, m, plain, fs, order, plen, n, what, comps, storage)


def same_as(c, m, plain, fs, order, plen, n, what, comps, storage):
    rows = list(plain.rows)
    for label, comp in fs.components.items():
        if comps is not None and label not in comps or isinstance(comp, fx.Storage) and not storage:
            continue
        ent = entries(plain, label)
        c.holds(f'{label} has time series', len(ent) > 0)
        for path, (xs, binary) in ent.items():
            if what == 'data' or binary:
                for i, j in pairs(order, plen, n):
                    rows.append((f'{path} alike at {i} and {j}', '==', xs[i] - xs[j]))
    c.same(m, Model(rows, plain.objective, plain.results), 'the full model with equal periods')


@harness('C22', quick=grid(free=[30, 50, 100], pen=[False, True], size=[(4, 2, 2), (6, 3, 2), (6, 2, 2)]) + grid(free=[0], pen=[True], size=[(6, 3, 2)]),
         thorough=grid(free=[10, 30, 50, 70, 100], pen=[True], size=[(8, 4, 2), (9, 3, 2)]), bounds='4-6 steps (thorough 9), shares 30, 50 and 100 %')
def freedom(c, free, pen, size):
    """on states may deviate in a limited number of places"""
    n, plen, k = size
    order = order_of(c, -(-n // plen), k)
    price = c.real('price', 0.1, 9) if pen else 0
    fs, dt, t, m = run(c, 'onoff', n, plen, order, 'binary', free, price)
    plain = c.model(build(c, 'onoff', n)[0])
    rows, cost = list(plain.rows), 0
    ps = pairs(order, plen, n)
    if not free:
        return same_as(c, m, plain, fs, order, plen, n, 'binary', None, True)
    # the deviations are entries of the aggregation model
    used = 0
    for path, (xs, binary) in entries(plain, 'u').items():
        if not binary or not ps:
            continue
        names = [q for q in flat(m.get('Others')) if q[-1].endswith('_' + path[-1]) and q[-1].startswith('Korr')]
        c.holds(f'deviations of {path}', len(names) == 2)
        up, down = (as_list(m.v('Others', *q)) for q in sorted(names, reverse=True))
        c.holds(f'one deviation per pair of {path}', len(up) == len(ps))
        for (i, j), a, b in zip(ps, up, down, strict=True):
            rows += [(f'deviation {path} {i}', '==', xs[i] - xs[j] + a - b)]
            rows += [(f'one at a time {path} {i}', '<=', a + b - 1)]
            for x in (a, b):
                rows += [(f'binary {path} {i}', '<=', -x), (f'binary {path} {i}', '<=', x - 1)]
        tot = total(up + down)
        rows += [(f'number of deviations {path}', '<=', tot - round(free / 100 * len(ps)))]
        cost = cost + price * tot
        for q, ks in zip(sorted(names, reverse=True), (up, down), strict=True):
            for r in flat(m.get('Effects', 'penalty')):
                if r[0] == 'Shares' and r[-1].endswith(q[-1]):
                    rows += [(f'cost of {q}', '==', m.v('Effects', 'penalty', *r) - price * total(ks))]
        used += 1
    c.holds('on states may deviate', used > 0 or not ps)
    (pen_atom,) = plain.v('Effects', 'penalty', 'penalty_sum').atoms()
    env = {pen_atom.id: Sym.of(pen_atom) - cost}
    spec = Model([(l, rel, sym.subst(p, env)) for l, rel, p in rows], plain.objective, plain.results)
    c.same(m, spec, 'equal periods up to the allowed deviations')


def as_list(x):
    return x if isinstance(x, list) else [x]


def flat(d, p=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, p + (k,))
        else:
            yield p + (k,)


@harness('C22', quick=grid(weights=['none', 'weight', 'zero', 'group', 'mixed', 'two groups', 'three groups'], peaks=[False, True]), bounds='4 steps, three to six series')
def weights(c, weights, peaks):
    n, plen = 4, 2
    ts, dt = c.time(n, equal=True)
    fs = fx.FlowSystem(ts)
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs)
    bus = fx.Bus('b', excess_penalty_per_flow_hour=2)
    w = c.real('w', 0.1, 1)
    kw = dict(none=[{}, {}, {}], weight=[dict(agg_weight=w), {}, {}], zero=[dict(agg_weight=0), {}, {}], group=[dict(agg_group='g'), dict(agg_group='g'), {}],
              mixed=[dict(agg_group='g'), dict(agg_weight=w), dict(agg_group='g')])
    kw['two groups'] = [dict(agg_group=g) for g in 'ghhh']
    kw['three groups'] = [dict(agg_group='g'), dict(agg_group='h'), dict(agg_group='k'), dict(agg_weight=w), dict(agg_group='h'), dict(agg_group='g'), dict(agg_group='h')]
    kw = kw[weights]
    want = dict(none=[1, 1, 1], weight=[w, 1, 1], zero=[0, 1, 1], group=[Fraction(1, 2), Fraction(1, 2), 1], mixed=[Fraction(1, 2), w, Fraction(1, 2)])
    want['two groups'] = [1] + [Fraction(1, 3)] * 3
    want['three groups'] = [Fraction(1, 2), Fraction(1, 3), 1, w, Fraction(1, 3), Fraction(1, 2), Fraction(1, 3)]
    want = want[weights]
    data, flows = [], []
    for i in range(len(kw)):
        a = [c.real(f'd{i}.{t}', 0.1, 5) for t in range(n)]
        for x, y in zip(a, a[1:]):
            c.assume(x != y)
        data.append(a)
        flows.append(fx.TimeSeriesData(c.pack(a), **kw[i]))
        fs.add_elements(fx.Source(f'u{i}', source=fx.Flow('f', bus, size=10, effects_per_flow_hour=flows[i])))
    with clustering(c, [0, 0], plen) as t:
        par = fx.AggregationParameters(hours_per_period=dt[0] * plen, nr_of_periods=1, fix_storage_flows=False, aggregate_data_and_fix_non_binary_vars=True,
                                       **(dict(time_series_for_high_peaks=[flows[1]], time_series_for_low_peaks=[flows[0], flows[2]]) if peaks else {}))
        c.model(fs, calc=fx.AggregatedCalculation('agg', fs, par))
    c.holds('clustered once', len(t.calls) == 1)
    df, k = t.calls[0]
    cols = list(df.columns)
    c.holds('all series are clustered', sorted(x.split('__')[0] for x in cols) == [f'u{i}' for i in range(len(kw))])
    by = {x.split('__')[0]: x for x in cols}
    for i in range(len(kw)):
        for s in range(n):
            c.holds(f'data of series {i} at {s}', df[by[f'u{i}']].tolist()[s] == data[i][s])
        c.holds(f'weight of series {i}', abs_ok(k['weightDict'][by[f'u{i}']], want[i]))
    c.holds('period length', k['hoursPerPeriod'] == dt[0] * plen)
    c.holds('step length', k['resolution'] == dt[0])
    c.holds('number of periods', k['noTypicalPeriods'] == 1)
    c.holds('high peaks', list(k['addPeakMax']) == ([by['u1']] if peaks else []))
    c.holds('low peaks', list(k['addPeakMin']) == ([by['u0'], by['u2']] if peaks else []))
    c.holds('extreme periods only with peaks', (k['extremePeriodMethod'] == 'None') == (not peaks))


def abs_ok(a, b):
    return abs(a - b) <= 1e-9


@harness('C22', quick=grid(first=['data', 'binary']), bounds='4 steps; a full calculation and another aggregated one after an aggregated one')
def afterwards(c, first):
    n, plen = 4, 2
    fs, dt, t, m = run(c, 'flow', n, plen, [0, 0], first)
    c.same(c.model(fs), c.model(build(c, 'flow', n)[0]), 'a full calculation uses the original data')
    with clustering(c, [0, 1], plen) as t:
        t.given = fs.given
        par = fx.AggregationParameters(hours_per_period=dt[0] * plen, nr_of_periods=2, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True)
        m2 = c.model(fs, calc=fx.AggregatedCalculation('agg2', fs, par))
    c.same(m2, c.model(build(c, 'flow', n, agg=t.values)[0]), 'another aggregation without equal periods')


@harness('C22', quick=grid(kind=['flow', 'onoff', 'storage'], sel=['head', 'middle', 'tail']), bounds='selections of 4 out of 6 steps')
def selection(c, kind, sel):
    sel = {'head': range(0, 4), 'middle': range(1, 5), 'tail': [2, 3, 4, 5]}[sel]
    fs, dt = build(c, kind, 6)
    with clustering(c, [0, 0], 2) as t:
        t.given = {k: [v[j] for j in sel] for k, v in fs.given.items()}
        par = fx.AggregationParameters(hours_per_period=dt[0] * 2, nr_of_periods=1, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True)
        m = c.model(fs, calc=fx.AggregatedCalculation('agg', fs, par, time_indices=sel))
    plain = c.model(build(c, kind, 4, agg=t.values)[0])
    same_as(c, m, plain, fs, [0, 0], 2, 4, 'data', None, True)


@harness('C22', quick=grid(what=['steps', 'period']), bounds='4 steps; unequal steps, or periods that do not consist of whole steps')
def refused(c, what):
    ts, dt = c.time(4, equal=what == 'period')
    if what == 'steps':
        c.assume(dt[0] != dt[1])
    fs = fx.FlowSystem(ts)
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs)
    a = c.arr('e', 4, 0.1, 5)
    fs.add_elements(fx.Source('u', source=fx.Flow('f', fx.Bus('b', excess_penalty_per_flow_hour=2), size=10, effects_per_flow_hour=a)))
    par = fx.AggregationParameters(hours_per_period=dt[0] * (2 if what == 'steps' else Fraction(5, 2) if c.is_sym else 2.5), nr_of_periods=1, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True)
    with clustering(c, [0, 0], 2):
        c.holds('refused', c.raises(lambda: c.model(fs, calc=fx.AggregatedCalculation('agg', fs, par))))
