from ..reg import grid, harness
from .common import *

N = 4
WIN = {'head': range(0, 2), 'middle': range(1, 3), 'tail': range(2, 4), 'three': range(1, 4), 'list': [1, 2], 'all': range(0, 4)}


class Data:
    """inputs over the full horizon, each created once; hands out the given steps"""

    def __init__(self, c, js, flat=()):
        self.c, self.js, self.flat = c, js, list(flat)

    def arr(self, name, lo, hi, tsd=False):
        full = [self.c.real(f'{name}{i}', lo, hi) for i in range(N)]
        if self.flat:  # constant within the selection
            full = [full[self.flat[0]] if i in self.flat else x for i, x in enumerate(full)]
        for x, y in zip(full, full[1:]):
            if x is not y:
                self.c.assume(x != y)
        a = self.c.pack([full[j] for j in self.js])
        return fx.TimeSeriesData(a) if tsd else a

    def real(self, name, lo, hi):
        return self.c.real(name, lo, hi)


def build(c, kind, js=range(N), flat=()):
    dt = [c.real(f'dt{i}', 0.25, 24) for i in range(N)]
    stamps = c.stamps(dt)
    for a, b in zip(dt, dt[1:]):
        c.assume(a != b)
    own = c.stamps([dt[j] for j in js])
    prev = c.real('pdt', 0.25, 24)
    fs = fx.FlowSystem(own, last_time_step_hours=dt[js[-1]], previous_dt_in_hours=prev)
    d = Data(c, js, flat)
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    bus = fx.Bus('b', excess_penalty_per_flow_hour=d.arr('pen', 0.5, 50))
    if kind == 'effects':
        co2 = fx.Effect('co2', 'kg', 'co2', specific_share_to_other_effects_operation={costs: d.arr('sh', 0.1, 3)},
                        maximum_operation_per_hour=d.arr('mph', 1, 50), minimum_operation_per_hour=d.arr('miph', -50, 0))
        fs.add_effects(costs, co2)
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, effects_per_flow_hour={co2: d.arr('e', 0.1, 5), costs: d.arr('k', 0.1, 5, True)})))
        return fs
    fs.add_effects(costs)
    if kind == 'flow':
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, relative_minimum=d.arr('lo', 0, 0.5), relative_maximum=d.arr('hi', 0.5, 1, True),
                                                      effects_per_flow_hour=d.arr('e', -5, 5), load_factor_max=d.real('lf', 0.1, 1), flow_hours_total_min=d.real('fh', 0, 5))),
                        fx.Sink('s', sink=fx.Flow('g', bus, size=5, fixed_relative_profile=d.arr('prof', 0, 1))))
    elif kind == 'onoff':
        on = fx.OnOffParameters(effects_per_running_hour=d.arr('rh', 0.1, 5), effects_per_switch_on=d.arr('sw', 0.1, 5),
                                consecutive_on_hours_min=d.arr('cmin', 0.1, 5), consecutive_off_hours_max=d.arr('cmax', 6, 60), on_hours_total_max=d.real('oh', 30, 60))
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, relative_minimum=d.arr('lo', 0.1, 0.5), on_off_parameters=on, previous_flow_rate=3)))
    elif kind == 'converter':
        a, b = fx.Flow('a', bus, size=10), fx.Flow('q', fx.Bus('b2', excess_penalty_per_flow_hour=d.arr('pen2', 0.5, 50)), size=10)
        fs.add_elements(fx.LinearConverter('u', inputs=[a], outputs=[b], conversion_factors=[{a: d.arr('ca', 0.5, 5), b: d.arr('cb', 0.5, 5, True)}],
                                           on_off_parameters=fx.OnOffParameters(effects_per_running_hour={costs: d.arr('rh', 0.1, 5)})))
    elif kind == 'segments':
        a, b = fx.Flow('a', bus, size=10), fx.Flow('q', fx.Bus('b2', excess_penalty_per_flow_hour=1), size=10)
        fs.add_elements(fx.LinearConverter('u', inputs=[a], outputs=[b], segmented_conversion_factors={
            a: [(d.arr('a0', 0, 2), d.arr('a1', 2, 3)), (d.arr('a2', 3, 5), 9)], b: [(d.arr('b0', 0, 2), 3), (d.real('b2', 3, 5), d.arr('b3', 5, 9))]}))
    elif kind.startswith('storage'):
        cap = fx.InvestParameters(minimum_size=1, maximum_size=50, optional=False, specific_effects={costs: 2}) if kind == 'storage invest' else 50
        fs.add_elements(fx.Storage('u', charging=fx.Flow('ch', bus, size=10, relative_maximum=d.arr('hi', 0.5, 1)), discharging=fx.Flow('dis', bus, size=10),
                                   capacity_in_flow_hours=cap, initial_charge_state='lastValueOfSim' if kind == 'storage cyclic' else d.real('q0', 10, 20),
                                   eta_charge=d.arr('ec', 0.5, 1), eta_discharge=d.arr('ed', 0.5, 1), relative_loss_per_hour=d.arr('loss', 0, 0.02),
                                   relative_minimum_charge_state=d.arr('qlo', 0, 0.1), relative_maximum_charge_state=d.arr('qhi', 0.6, 1)))
    elif kind == 'line':
        b2 = fx.Bus('b2', excess_penalty_per_flow_hour=1)
        fs.add_elements(fx.Transmission('u', in1=fx.Flow('i1', bus, size=10), out1=fx.Flow('o1', b2, size=10), relative_losses=d.arr('rl', 0, 0.5), absolute_losses=d.arr('al', 0.1, 2)))
    elif kind == 'invest':
        inv = fx.InvestParameters(minimum_size=1, maximum_size=20, optional=True, fix_effects=d.real('fe', 0, 50), specific_effects={costs: 3})
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=inv, relative_maximum=d.arr('hi', 0.5, 1), effects_per_flow_hour=d.arr('e', 0.1, 5))),
                        fx.Sink('s', sink=fx.Flow('g', bus, size=inv2(d), fixed_relative_profile=d.arr('prof', 0.1, 1))))
    return fs


def inv2(d):
    return fx.InvestParameters(fixed_size=d.real('fs', 1, 5), optional=False)


KINDS = ['flow', 'onoff', 'converter', 'segments', 'storage', 'storage cyclic', 'storage invest', 'line', 'effects', 'invest']


@harness('C20', quick=grid(kind=KINDS, win=['head', 'middle', 'tail', 'three'], hist=['fresh']) + grid(kind=KINDS, win=['middle'], hist=['full', 'other'])
         + grid(kind=['flow', 'storage'], win=['list', 'all'], hist=['fresh']) + grid(kind=KINDS, win=['middle'], hist=['fresh'], flat=[True]),
         thorough=grid(kind=KINDS, win=['head', 'tail', 'three', 'list', 'all'], hist=['full', 'other', 'two']),
         bounds='4 steps with free lengths, windows of 2-4 steps, after no / a full / another modelling')
def window(c, kind, win, hist, flat=False):
    js = WIN[win]
    flat = js if flat else ()
    big = build(c, kind, flat=flat)
    if hist in ('full', 'two'):
        c.model(big)
    if hist in ('other', 'two'):
        c.model(big, time_indices=WIN['head' if win != 'head' else 'tail'])
    m = c.model(big, time_indices=js)
    small = c.model(build(c, kind, js, flat))
    c.same(m, small, 'the selection equals the smaller system')


@harness('C20', quick=grid(kind=KINDS, hist=['window', 'full']), thorough=grid(kind=KINDS, hist=['two']), bounds='4 steps; the full system after earlier selections')
def afterwards(c, kind, hist):
    big = build(c, kind)
    if hist != 'full':
        c.model(big, time_indices=WIN['middle'])
    else:
        c.model(big)
    if hist == 'two':
        c.model(big, time_indices=WIN['tail'])
    m = c.model(big)
    c.same(m, c.model(build(c, kind)), 'the full system is unaffected by earlier selections')
