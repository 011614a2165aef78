import inspect

import numpy as np
from flixOpt.results import CalculationResults

from ..core import Given
from ..files import files
from ..reg import grid, harness
from ..sym import Sym
from .common import *  # isort: skip
from .c24_files import axis

N = 3


class Spec:
    """objects of flixOpt together with the arguments they were made of"""

    def __init__(self, c):
        self.c, self.of = c, {}

    def make(self, cls, *args, **kw):
        names = [k for k in inspect.signature(cls.__init__).parameters if k != 'self']
        x = cls(*args, **kw)
        self.of[id(x)] = (x, {**dict(zip(names, args)), **kw})
        return x

    def equal(self, got, want, tol=0):
        """got: what the description says; want: what was given"""
        from flixOpt.structure import Interface

        if isinstance(want, fx.TimeSeriesData):
            want = want.data
        if isinstance(want, (fx.Flow, fx.Bus, fx.Effect)) and isinstance(got, str):
            return got == want.label
        if isinstance(want, Interface):
            return isinstance(got, dict) and self.described(got, want, tol)
        if isinstance(want, dict):
            if not isinstance(got, dict):
                return False
            w = {getattr(k, 'label', k): v for k, v in want.items()}
            return set(w) == set(got) and conj(*[self.equal(got[k], v, tol) for k, v in w.items()])
        if isinstance(got, dict):  # a value for the standard effect
            return set(got) in ({'costs'}, {None}, {'null'}) and self.equal(next(iter(got.values())), want, tol)
        if want is None or got is None:
            return got is None and want is None
        if isinstance(want, (str, bool)):
            return isinstance(got, type(want)) and got == want
        if isinstance(want, (list, tuple)) and not isinstance(want, np.ndarray):
            return len(got) == len(want) and conj(*[self.equal(a, b, tol) for a, b in zip(got, want)])
        a, b = ([x for x in np.asarray(v, dtype=object).view(np.ndarray).reshape(-1).tolist()] if isinstance(v, (np.ndarray, list)) else [v] for v in (got, want))
        if len(a) != len(b):
            if 1 not in (len(a), len(b)):
                return False
            a, b = (x * max(len(a), len(b)) if len(x) == 1 else x for x in (a, b))
        if any(isinstance(x, (str, dict)) for x in a + b):
            return False
        return conj(*[Sym.lift(x) == Sym.lift(y) if not tol else conj(Sym.lift(x) - Sym.lift(y) <= tol, Sym.lift(y) - Sym.lift(x) <= tol) for x, y in zip(a, b)])

    def described(self, infos, x, tol=0):
        return conj(*[f for _, f in self.facts(infos, x, tol)])

    def facts(self, infos, x, tol=0):
        _, given = self.of[id(x)]
        params = inspect.signature(type(x).__init__).parameters
        yield 'class', str(infos.get('class')).split(':')[0] == type(x).__name__
        for k, v in given.items():
            if k in infos:
                yield k, self.equal(infos[k], v, tol)
            else:
                d = params[k].default
                if isinstance(v, (list, dict)) and not v:
                    continue
                yield k, d is not inspect.Parameter.empty and self.equal(d, v, tol)


def system(c, kind, wrong='', by=0):
    """wrong, by: the series that is longer or shorter than the time axis"""
    s = Spec(c)
    r, a = c.real, lambda n, lo=0.1, hi=5: c.arr(n, N + (by if n == wrong else 0), lo, hi)
    make = s.make
    costs = make(fx.Effect, 'costs', 'EUR', 'all costs', is_standard=True, is_objective=True, maximum_total=r('mt', 1000, 9000), minimum_operation=r('mo', -5, 5), maximum_operation_per_hour=a('moh', 100, 500))
    co2 = make(fx.Effect, 'co2', 'kg', '', specific_share_to_other_effects_operation={costs: a('sh')}, specific_share_to_other_effects_invest={costs: r('shi', 0.1, 3)}, maximum_invest=r('mi', 10, 900), meta_data={'source': 'own'})
    heat = make(fx.Bus, 'heat', excess_penalty_per_flow_hour=a('pen', 0.5, 50))
    fuel = make(fx.Bus, 'fuel', excess_penalty_per_flow_hour=None if kind == 'flow' else r('penf', 1, 50))
    power = make(fx.Bus, 'power')
    on = lambda: make(fx.OnOffParameters, effects_per_switch_on={co2: r('sw', 0.1, 5)}, effects_per_running_hour=a('rh'), consecutive_on_hours_min=r('cmin', 0.5, 3), consecutive_off_hours_max=a('cmax', 1, 5), on_hours_total_max=r('ohm', 1, 50), switch_on_total_max=r('swm', 1, 9), force_switch_on=True)  # noqa: E731
    inv = lambda: make(fx.InvestParameters, minimum_size=r('smin', 1, 5), maximum_size=r('smax', 6, 20), optional=False, fix_effects={costs: r('fe', 1, 50)}, specific_effects=r('se', 0.1, 3))  # noqa: E731
    fl = lambda label, bus, **k: make(fx.Flow, label, bus, size=k.pop('size', r('s_' + label, 5, 30)), **k)  # noqa: E731
    comps = []
    if kind == 'flow':
        f = fl('f', heat, relative_minimum=a('lo', 0, 0.5), relative_maximum=fx.TimeSeriesData(a('hi', 0.5, 1)), effects_per_flow_hour={costs: a('k'), co2: r('k2', 0, 2)}, on_off_parameters=on(), flow_hours_total_max=r('fhm', 10, 900),
               flow_hours_total_min=r('fhl', 0, 5), load_factor_max=r('lfm', 0.5, 1), load_factor_min=r('lfl', 0, 0.1), previous_flow_rate=r('prev', 0, 5), meta_data={'x': 3})
        comps.append(make(fx.Source, 'u', f))
        g = fl('g', fuel, fixed_relative_profile=a('prof', 0, 1), effects_per_flow_hour=a('k3'))
        comps.append(make(fx.Sink, 'w', sink=g))
        comps.append(make(fx.SourceAndSink, 'x', source=fl('i', fuel), sink=fl('o', fuel, size=inv()), prevent_simultaneous_flows=False))
        comps.append(make(fx.SourceAndSink, 'y', source=fl('i2', fuel), sink=fl('o2', fuel), prevent_simultaneous_flows=True))
    elif kind == 'storage':
        comps.append(make(fx.Storage, 'u', charging=fl('ch', heat), discharging=fl('dis', heat), capacity_in_flow_hours=inv(), relative_minimum_charge_state=a('lo', 0, 0.3), relative_maximum_charge_state=a('hi', 0.5, 1),
                          initial_charge_state=r('q0', 1, 2), minimal_final_charge_state=r('ql', 0, 1), maximal_final_charge_state=r('qh', 2, 5), eta_charge=a('ec', 0.5, 1), eta_discharge=r('ed', 0.5, 1), relative_loss_per_hour=a('loss', 0, 0.02), prevent_simultaneous_charge_and_discharge=False))
    elif kind == 'line':
        comps.append(make(fx.Transmission, 'u', in1=fl('i1', fuel), out1=fl('o1', heat), in2=fl('i2', heat), out2=fl('o2', fuel), relative_losses=a('rl', 0, 0.5), absolute_losses=r('al', 0.1, 2), prevent_simultaneous_flows_in_both_directions=False))
    elif kind == 'converter':
        p, q = fl('p', fuel), fl('q', heat)
        comps.append(make(fx.LinearConverter, 'u', inputs=[p], outputs=[q], conversion_factors=[{p: a('cp'), q: r('cq', 0.1, 3)}], on_off_parameters=on()))
    elif kind == 'segments':
        p, q = fl('p', fuel), fl('q', heat)
        comps.append(make(fx.LinearConverter, 'u', inputs=[p], outputs=[q], segmented_conversion_factors={p: [(r('p0', 0, 2), r('p1', 2, 3)), (4, 5)], q: [(1, 2), (a('q0', 2, 3), 9)]}))
    else:
        L = fx.linear_converters
        eta = a('eta', 0.1, 0.45)
        comps.append({
            'boiler': lambda: make(L.Boiler, 'u', eta=eta, Q_fu=fl('a', fuel), Q_th=fl('q', heat), on_off_parameters=on()),
            'p2h': lambda: make(L.Power2Heat, 'u', eta=eta, P_el=fl('p', power), Q_th=fl('q', heat)),
            'hp': lambda: make(L.HeatPump, 'u', COP=a('cop', 1, 5), P_el=fl('p', power), Q_th=fl('q', heat)),
            'ct': lambda: make(L.CoolingTower, 'u', specific_electricity_demand=a('dem', 0.01, 0.9), P_el=fl('p', power), Q_th=fl('q', heat)),
            'chp': lambda: make(L.CHP, 'u', eta_th=eta, eta_el=r('el', 0.1, 0.5), Q_fu=fl('a', fuel), P_el=fl('p', power), Q_th=fl('q', heat)),
            'hps': lambda: make(L.HeatPumpWithSource, 'u', COP=a('cop', 1.5, 5), P_el=fl('p', power), Q_ab=fl('ab', fuel), Q_th=fl('q', heat)),
        }[kind]())
    comps.append(make(fx.Source, 'gas', source=fl('f0', fuel, effects_per_flow_hour=r('kg', 0.1, 5), size=40)))
    fs = fx.FlowSystem(axis('h', N))
    fs.add_elements(costs, co2, *comps)
    return s, fs


KINDS = ['flow', 'storage', 'line', 'converter', 'segments', 'boiler', 'p2h', 'hp', 'ct', 'chp', 'hps']


def check(c, s, fs, infos, name='', tol=0):
    groups = dict(Components=fs.components, Buses=fs.buses, Effects=fs.effect_collection.effects)
    for g, elements in groups.items():
        c.holds(f'{name}{g}: all and only the elements', set(infos[g]) - {'penalty'} == set(elements))
        for label, x in elements.items():
            if label not in infos[g]:
                continue
            for k, f in s.facts(infos[g][label], x, tol):
                c.holds(f'{name}{label}.{k}', f)
    for x in fs.components.values():
        d = infos['Components'].get(x.label, {})
        for side, flows in (('inputs', x.inputs), ('outputs', x.outputs)):
            got = d.get(side, [])
            c.holds(f'{name}{x.label}: {side}', len(got) == len(flows))
            for f, i in zip(flows, got):
                for k, fact in s.facts(i, f, tol):
                    c.holds(f'{name}{x.label}.{f.label}.{k}', fact)
                c.holds(f'{name}{x.label}.{f.label}: side', i.get('is_input_in_component') == (side == 'inputs'))


@harness('C28', quick=grid(kind=KINDS, numpy=[True, False], labels=[True, False], when=['before', 'after']), bounds='3 steps; all components and parameter kinds; every value')
def described(c, kind, numpy, labels, when):
    s, fs = system(c, kind)
    if when == 'after':
        c.model(fs)
    check(c, s, fs, fs.infos(use_numpy=numpy, use_element_label=labels))


@harness('C28', quick=grid(kind=KINDS), bounds='3 steps; description in the files of a calculation')
def saved(c, kind):
    s, fs = system(c, kind)
    given = Given(c, lo=0, hi=50, ranges={'excess': (1, 50), 'Investment_size': (1, 50)})
    with files(c) as d:
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        calc.solve(given, save_results=d)
        res = CalculationResults('calc', d)
        check(c, s, fs, res.all_data)
        check(c, s, fs, res.calculation_infos['FlowSystem'], 'compact: ', 0.0051)
        net = res.calculation_infos['Network']
        fs.to_json(f'{d}/own.json')
        import flixOpt.structure as module

        with open(f'{d}/own.json', encoding='utf-8') as f:
            check(c, s, fs, module.json.load(f), 'own file: ', 0.0051)
        for x in list(fs.components.values()) + list(fs.effect_collection.effects.values()) + list(fs.buses.values()):
            x.to_json(f'{d}/one.json')
            with open(f'{d}/one.json', encoding='utf-8') as f:
                got = module.json.load(f)
            for k, fact in s.facts(got, x, 0.0051):
                c.holds(f'one: {x.label}.{k}', fact)
    network(c, fs, net['Nodes'], net['Edges'])
    for label, x in res.component_results.items():
        c.holds(f'{label}: flows of the results', {f.label for f in x.inputs} == {f.label for f in fs.components[label].inputs} and {f.label for f in x.outputs} == {f.label for f in fs.components[label].outputs})


def network(c, fs, nodes, edges):
    c.holds('a node for each component and bus', set(nodes) == set(fs.components) | set(fs.buses))
    for k, n in nodes.items():
        c.holds(f'{k}: kind', n['class'] == ('Bus' if k in fs.buses else 'Component') and n['label'] == k)
    flows = {f'{x.label}__{f.label}': (f, x, f in x.inputs) for x in fs.components.values() for f in x.inputs + x.outputs}
    c.holds('an edge for each flow', set(edges) == set(flows))
    for k, e in edges.items():
        if k in flows:
            f, x, into = flows[k]
            ends = (f.bus.label, x.label) if into else (x.label, f.bus.label)
            c.holds(f'{k}: direction', (e['start'], e['end']) == ends and e['label'] == f.label)


@harness('C28', quick=grid(kind=KINDS, when=['before', 'after']), bounds='the network of all kinds of components')
def connections(c, kind, when):
    s, fs = system(c, kind)
    if when == 'after':
        c.model(fs)
    network(c, fs, *fs.network_infos())
