from ..reg import grid, harness
from .common import *  # isort: skip
from .c19_time import stamps_of
from .c22_aggregation import clustering
from .c28_description import system

SERIES = {
    'flow': ['moh', 'sh', 'pen', 'lo', 'hi', 'k', 'rh', 'cmax', 'prof', 'k3'],
    'storage': ['lo', 'hi', 'ec', 'loss'], 'line': ['rl'], 'converter': ['cp', 'rh', 'cmax'], 'segments': ['q0'],
    'boiler': ['eta'], 'p2h': ['eta'], 'hp': ['cop'], 'ct': ['dem'], 'chp': ['eta'], 'hps': ['cop'],
}


@harness('C30', quick=[dict(kind=k, series=s, by=by) for k, ss in SERIES.items() for s in ss for by in (-1, 0, 1)], bounds='3 steps; every series of every kind of element one step too short or too long')
def lengths(c, kind, series, by):
    error = None
    try:
        _, fs = system(c, kind, series, by)
        c.model(fs)
    except Exception as e:
        error = e
    if by == 1 and kind == 'storage' and series in ('lo', 'hi'):
        return  # limits of the charge state may be given for its last value too
    c.holds('refused exactly if the length is wrong', (error is not None) == (by != 0))


def base(c, n=3):
    ts, dt = c.time(n)
    fs = fx.FlowSystem(ts, previous_dt_in_hours=c.real('pdt', 0.25, 24))
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_elements(costs)
    return fs, costs, fx.Bus('heat', excess_penalty_per_flow_hour=c.real('pen', 1, 50)), fx.Bus('fuel', excess_penalty_per_flow_hour=c.real('pen2', 1, 50))


@harness('C30', quick=grid(lo=['scalar', 'array', 'series'], hi=['scalar', 'array', 'series', 'default'], size=['given', 'invest']), bounds='3 steps, all limits')
def limits(c, lo, hi, size):
    fs, costs, heat, fuel = base(c)
    los, his = [c.real('lo', -1, 3)] * 3, [c.real('hi', -1, 3)] * 3 if hi != 'default' else [1] * 3
    kw, error = {}, None
    if lo == 'scalar':
        kw['relative_minimum'] = los[0]
    else:
        a = c.arr('lo', 3, -1, 3)
        los = list(a)
        kw['relative_minimum'] = a if lo == 'array' else fx.TimeSeriesData(a)
    if hi == 'scalar':
        kw['relative_maximum'] = his[0]
    elif hi != 'default':
        a = c.arr('hi', 3, -1, 3)
        his = list(a)
        kw['relative_maximum'] = a if hi == 'array' else fx.TimeSeriesData(a)
    try:
        f = fx.Flow('f', heat, size=c.real('s', 1, 9) if size == 'given' else fx.InvestParameters(maximum_size=9), **kw)
    except Exception as e:
        error = e
    bad = disj(*[x > y for x, y in zip(los, his)])
    c.holds('refused exactly if a lower limit is above the upper limit', iff(bad, error is not None))
    if error is None:
        fs.add_elements(fx.Source('u', source=f))
        c.holds('accepted', c.model(fs) is not None)


@harness('C30', quick=grid(n=[2, 3, 4]), bounds='2-4 time stamps in any order')
def time_axis(c, n):
    dt = [c.real(f'dt{i}', -5, 24) for i in range(n - 1)]
    for d in dt:
        c.assume(disj(d >= 0.25, d <= -0.25))
    error = c.raises(lambda: fx.FlowSystem(c.stamps(dt + [1]), last_time_step_hours=1))
    c.holds('refused exactly if time runs backwards', iff(disj(*[d < 0 for d in dt]), error))


@harness('C30', quick=grid(factors=['none', 'both', 'one', 'two', 'three', 'foreign', 'segments', 'segments and investment', 'segments and fixed investment']), bounds='a converter with one input and two outputs')
def converters(c, factors):
    fs, costs, heat, fuel = base(c)
    size = {'segments and investment': lambda: fx.InvestParameters(maximum_size=c.real('s', 1, 9)), 'segments and fixed investment': lambda: fx.InvestParameters(fixed_size=c.real('s', 1, 9))}.get(factors, lambda: c.real('s', 1, 9))
    p, q, r = fx.Flow('p', fuel, size=size()), fx.Flow('q', heat, size=9), fx.Flow('r', fx.Bus('power'), size=9)
    other = fx.Flow('z', heat, size=3)
    k = lambda i: c.real(f'k{i}', 0.1, 3)  # noqa: E731
    eq = [{p: k(0), q: k(1)}, {p: k(2), r: k(3)}, {q: k(4), r: k(5)}]
    seg = {p: [(0, 2), (3, 5)], q: [(0, k(1)), (3, 4)], r: [(1, 2), (3, 3)]}
    kw = {'none': {}, 'both': dict(conversion_factors=eq[:1], segmented_conversion_factors=seg), 'one': dict(conversion_factors=eq[:1]), 'two': dict(conversion_factors=eq[:2]), 'three': dict(conversion_factors=eq),
          'foreign': dict(conversion_factors=[{p: 1, other: k(1)}])}.get(factors, dict(segmented_conversion_factors=seg))

    def go():
        fs.add_elements(fx.LinearConverter('u', inputs=[p], outputs=[q, r], **kw))
        c.model(fs)

    c.holds('refused exactly if inconsistent', c.raises(go) == (factors in ('none', 'both', 'three', 'foreign', 'segments and investment')))


@harness('C30', quick=grid(ends=['same', 'back from elsewhere', 'back to elsewhere', 'one way'], size=['given', 'in1', 'out1', 'in2', 'out2']), bounds='a transmission with one or two directions')
def lines(c, ends, size):
    fs, costs, heat, fuel = base(c)
    third = fx.Bus('third')
    s = {k: c.real(f's_{k}', 1, 9) for k in ('in1', 'out1', 'in2', 'out2')}
    if size != 'given':
        s[size] = fx.InvestParameters(maximum_size=c.real('smax', 1, 9))
    f = dict(in1=fx.Flow('in1', fuel, size=s['in1']), out1=fx.Flow('out1', heat, size=s['out1']))
    if ends != 'one way':
        f |= dict(in2=fx.Flow('in2', third if ends == 'back from elsewhere' else heat, size=s['in2']), out2=fx.Flow('out2', third if ends == 'back to elsewhere' else fuel, size=s['out2']))

    def go():
        fs.add_elements(fx.Transmission('u', relative_losses=c.real('l', 0, 0.5), **f))
        c.model(fs)

    bad = 'elsewhere' in ends or (size in ('out1', 'in2', 'out2') and size in f)
    c.holds('refused exactly if inconsistent', c.raises(go) == bad)


@harness('C30', quick=grid(where=['flow', 'start', 'running', 'invest', 'invest per size', 'share', 'segments']), bounds='3 steps; an effect that is not part of the system')
def unknown_effect(c, where):
    fs, costs, heat, fuel = base(c)
    other, k = fx.Effect('other', '', ''), c.real('k', 0.1, 5)
    kw = dict(size=9)
    if where == 'flow':
        kw['effects_per_flow_hour'] = {other: k}
    elif where in ('start', 'running'):
        kw['on_off_parameters'] = fx.OnOffParameters(**{'effects_per_switch_on' if where == 'start' else 'effects_per_running_hour': {other: k}})
    elif where == 'share':
        fs.add_elements(fx.Effect('e2', '', '', specific_share_to_other_effects_operation={other: k}))
    else:
        kw['size'] = fx.InvestParameters(maximum_size=9, **{'invest': dict(fix_effects={other: k}), 'invest per size': dict(specific_effects={other: k}), 'segments': dict(effects_in_segments=([(0, 3), (3, 9)], {other: [(0, k), (5, 5)]}))}[where])
    fs.add_elements(fx.Source('u', source=fx.Flow('f', heat, **kw)))
    c.holds('refused', c.raises(lambda: c.model(fs)))


@harness('C30', quick=grid(length=[2, 3, 4], overlap=[0, 1, 2, 3], n=[4, 5]), bounds='4-5 steps')
def segmented(c, length, overlap, n):
    fs, costs, heat, fuel = base(c, n)
    fs.add_elements(fx.Source('u', source=fx.Flow('f', heat, size=9)))
    error = c.raises(lambda: fx.SegmentedCalculation('calc', fs, length, overlap))
    c.holds('refused exactly if too short or longer than the horizon', error == (length <= 2 or length + overlap > n))


@harness('C30', quick=grid(step=[0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 3], per=[1, 1.5, 2, 3]) + grid(step=[None], per=[1, 2]), bounds='4 steps; given steps and periods of equal length, all steps of different lengths')
def aggregated(c, step, per):
    if step:
        d = [step] * 4
    else:
        d = [c.real(f'dt{i}', 0.5, 2) for i in range(3)]
        d.append(d[-1])
        c.assume(disj(d[0] >= d[1] + 0.1, d[1] >= d[2] + 0.1))
    fs = fx.FlowSystem(c.stamps(d))
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_elements(costs, fx.Source('u', source=fx.Flow('f', fx.Bus('heat'), size=9, relative_maximum=c.arr('hi', 4, 0.5, 1))))

    def go():
        with clustering(c, [0] * 4, 1):
            fx.AggregatedCalculation('calc', fs, fx.AggregationParameters(hours_per_period=per, nr_of_periods=1, fix_storage_flows=True, aggregate_data_and_fix_non_binary_vars=True)).do_modeling()

    error = c.raises(go)
    c.holds('refused exactly if steps are of different length or no part of a period', error == (not step or per % step != 0))


@harness('C30', quick=grid(standard=[0, 1, 2], objective=[0, 1, 2]), bounds='two effects, none, one or both of them standard and objective')
def two_effects(c, standard, objective):
    ts, dt = c.time(3)
    fs = fx.FlowSystem(ts)
    effects = [fx.Effect(f'e{i}', '', '', is_standard=i < standard, is_objective=i < objective) for i in range(2)]
    error = c.raises(lambda: fs.add_elements(*effects))
    c.holds('refused exactly if there are two', error == (standard == 2 or objective == 2))


@harness('C30', quick=grid(initial=['number', 'lastValueOfSim', 'other', 'none']), bounds='3 steps, all values')
def first_charge(c, initial):
    fs, costs, heat, fuel = base(c)
    fs.add_elements(fx.Storage('u', fx.Flow('in', heat, size=9), fx.Flow('out', heat, size=9), capacity_in_flow_hours=9, initial_charge_state=dict(number=c.real('k', 0, 9), other='first', none=None).get(initial, initial)))
    c.holds('refused exactly if unknown', c.raises(lambda: c.model(fs)) == (initial == 'other'))


@harness('C30', quick=grid(group=[True, False], weight=[True, False]), bounds='all values')
def weights(c, group, weight):
    error = c.raises(lambda: fx.TimeSeriesData(c.arr('k', 3, 0, 5), agg_group='g' if group else None, agg_weight=c.real('w', 0, 1) if weight else None))
    c.holds('refused exactly if both are given', error == (group and weight))
