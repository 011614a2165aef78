from ..reg import grid, harness
from .common import *
from .c21_segments import Given, watched
from .c22_aggregation import clustering

N = 3


def parts(c, kind, shared=True, n=N):
    """effects and components of a system; shared: parameter objects and data are used by several elements"""
    def arr(name, lo, hi):
        a = c.arr(name, n, lo, hi)
        for x, y in zip(list(a), list(a)[1:]):
            c.assume(x != y)
        return a

    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    co2 = fx.Effect('co2', 'kg', 'co2', specific_share_to_other_effects_operation={costs: arr('sh', 0.1, 3)}, specific_share_to_other_effects_invest={costs: 2})
    heat, fuel = fx.Bus('heat', excess_penalty_per_flow_hour=arr('pen', 0.5, 50)), fx.Bus('fuel', excess_penalty_per_flow_hour=None)
    k = arr('k', 0.1, 5)
    per_hour = {costs: k, co2: fx.TimeSeriesData(arr('e', 0.1, 5))}
    each = (lambda make: (lambda x=make(): x)) if shared else (lambda make: make)
    eff = each(lambda: dict(per_hour))
    on = each(lambda: fx.OnOffParameters(effects_per_switch_on={costs: arr('sw', 0.1, 5)}, effects_per_running_hour=arr('rh', 0.1, 5), consecutive_on_hours_min=arr('cmin', 0.1, 5), switch_on_total_max=2))
    inv = each(lambda: fx.InvestParameters(minimum_size=1, maximum_size=20, optional=True, fix_effects={costs: c.real('fe', 1, 50)}, specific_effects={co2: 3}))
    src = fx.Source('gas', source=fx.Flow('f', fuel, size=30, effects_per_flow_hour=eff()))
    out = [src]
    if kind == 'onoff':
        out += [fx.Source(f'u{i}', source=fx.Flow('f', heat, size=10, relative_minimum=0.2, on_off_parameters=on(), effects_per_flow_hour=eff(), previous_flow_rate=i)) for i in (0, 1)]
    elif kind == 'invest':
        out += [fx.Source(f'u{i}', source=fx.Flow('f', heat, size=inv(), relative_maximum=arr('hi', 0.5, 1), effects_per_flow_hour=eff())) for i in (0, 1)]
    elif kind == 'converter':
        for i in (0, 1):
            a, b = fx.Flow('a', fuel, size=10), fx.Flow('q', heat, size=10)
            out.append(fx.LinearConverter(f'u{i}', inputs=[a], outputs=[b], conversion_factors=[{a: k, b: fx.TimeSeriesData(arr('cb', 0.5, 5))}], on_off_parameters=on()))
    elif kind == 'boiler':
        out += [fx.linear_converters.Boiler(f'u{i}', eta=fx.TimeSeriesData(arr('eta', 0.1, 0.9)), Q_fu=fx.Flow('a', fuel, size=10), Q_th=fx.Flow('q', heat, size=10)) for i in (0, 1)]
    elif kind == 'segments':
        for i in (0, 1):
            a, b = fx.Flow('a', fuel, size=10), fx.Flow('q', heat, size=10)
            s0 = arr('s0', 0, 2)
            out.append(fx.LinearConverter(f'u{i}', inputs=[a], outputs=[b], segmented_conversion_factors={a: [(s0, 3), (4, 5)], b: [(1, arr('s1', 2, 3)), (s0, 9)]}))
    elif kind == 'storage':
        out += [fx.Storage(f'u{i}', charging=fx.Flow('ch', heat, size=10), discharging=fx.Flow('dis', heat, size=10), capacity_in_flow_hours=inv() if i else 50,
                           initial_charge_state='lastValueOfSim' if i else c.real('q0', 5, 10), eta_charge=arr('ec', 0.5, 1), relative_loss_per_hour=c.real('loss', 0, 0.02)) for i in (0, 1)]
    elif kind == 'line':
        out += [fx.Transmission(f'u{i}', in1=fx.Flow('i1', fuel, size=10), out1=fx.Flow('o1', heat, size=10), in2=fx.Flow('i2', heat, size=10), out2=fx.Flow('o2', fuel, size=10),
                                relative_losses=arr('rl', 0, 0.5), absolute_losses=fx.TimeSeriesData(arr('al', 0.1, 2))) for i in (0, 1)]
    elif kind == 'sinks':
        prof = arr('prof', 0, 1)
        out += [fx.Sink(f'u{i}', sink=fx.Flow('f', heat, size=c.real('s', 1, 5), fixed_relative_profile=prof, effects_per_flow_hour=eff())) for i in (0, 1)]
        out += [fx.SourceAndSink('v', source=fx.Flow('i', heat, size=9, flow_hours_total_max=4), sink=fx.Flow('o', heat, size=9, relative_maximum=prof))]
    return [costs, co2], out


def build(c, kind, how='at once', shared=True, equal=False):
    ts, dt = c.time(N, equal=equal)
    fs = fx.FlowSystem(ts, previous_dt_in_hours=c.real('pdt', 0.25, 24))
    effects, comps = parts(c, kind, shared)
    if how == 'at once':
        fs.add_elements(*effects, *comps)
    elif how == 'one by one':
        for x in effects + comps:
            fs.add_elements(x)
    elif how == 'by kind':
        fs.add_effects(*effects)
        fs.add_components(*comps)
    elif how == 'reversed':
        fs.add_elements(*reversed(effects))
        fs.add_elements(*reversed(comps))
    elif how == 'components first':
        fs.add_elements(*comps, *effects)
    elif how == 'mixed':
        fs.add_elements(comps[0], effects[1], *comps[1:][::-1])
        fs.add_elements(effects[0])
    return fs


KINDS = ['onoff', 'invest', 'converter', 'boiler', 'segments', 'storage', 'line', 'sinks']


@harness('C23', quick=grid(kind=KINDS, times=[2]), thorough=grid(kind=KINDS, times=[4]), bounds='3 steps, 2 (thorough 4) repetitions')
def repeated(c, kind, times):
    fs = build(c, kind)
    first = c.model(fs)
    for i in range(times):
        m = c.model(fs)
    c.same(first, m, 'the same model again')


@harness('C23', quick=grid(kind=KINDS, how=['one by one', 'by kind', 'reversed', 'components first', 'mixed']), bounds='3 steps, 3-4 components and two effects in six orders')
def order(c, kind, how):
    c.same(c.model(build(c, kind)), c.model(build(c, kind, how)), 'the order of adding does not matter')


@harness('C23', quick=grid(kind=KINDS), bounds='3 steps; parameter objects shared by two elements')
def shared(c, kind):
    c.same(c.model(build(c, kind)), c.model(build(c, kind, shared=False)), 'sharing parameter objects does not matter')


@harness('C23', quick=grid(kind=['onoff', 'converter', 'storage', 'sinks'], first=['segmented', 'window', 'extended', 'aggregated', 'aggregated window']), bounds='3 steps (segmented: 3 + 0), after a segmented, windowed or aggregated calculation, or before an element was added')
def history(c, kind, first):
    # the name of shared series is that of one of their users, but the aggregated values go by name
    fs = build(c, kind, equal='aggregated' in first, shared='aggregated' not in first)
    if first == 'segmented':
        found = []
        calc = fx.SegmentedCalculation('seg', fs, segment_length=3, overlap_length=0)
        with watched(c, found):
            calc.do_modeling_and_solve(Given(c, lo=0, hi=9), save_results=False)
    elif first == 'window':
        c.model(fs, time_indices=range(1, 3))
    elif 'aggregated' in first:
        with clustering(c, [0, 1, 0], 1):
            par = fx.AggregationParameters(hours_per_period=fs_step(fs), nr_of_periods=2, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True)
            c.model(fs, calc=fx.AggregatedCalculation('agg', fs, par, time_indices=range(0, 3) if 'window' in first else None))
    new = build(c, kind, equal='aggregated' in first)
    if first == 'extended':
        c.model(fs)
        for f in (fs, new):
            bus = f.buses['heat']
            f.add_elements(fx.Sink('new', sink=fx.Flow('f', bus, size=3, effects_per_flow_hour=c.real('kn', 0.1, 3))))
    c.same(c.model(fs), c.model(new), 'the model does not depend on what was calculated before')


def fs_step(fs):
    return fs.get_time_data_from_indices(None)[2][0]
