from flixOpt.elements import Component

from ..reg import grid, harness
from .c06_phases import onoff_unit
from .common import *


def trailing(c, bits, dts):
    """hours of the trailing run of ones"""
    d = 0
    for b, h in zip(bits, dts):
        d = c.ite(b == 1, d + h, 0)
    return d


def prev_dt(c, kind, k):
    if kind == 'default':
        return {}, None
    if kind == 'scalar':
        p = c.real('pdt', Fraction(1, 4), 24)
        return dict(previous_dt_in_hours=p), [p] * k
    a = c.arr('pdt', k, Fraction(1, 4), 24)
    return dict(previous_dt_in_hours=a), [a[i] for i in range(k)]


def rates_of(c, name, k):
    xs = [c.real(f'{name}{i}', 0, 100) for i in range(k)]
    for x in xs:
        c.assume(disj(x == 0, x >= 0.01))
    return xs


@harness('C07', quick=grid(what=['on', 'off'], k=[2, 3], pdt=['default', 'scalar', 'array']) + grid(what=['on', 'off'], k=[1], pdt=['default', 'scalar'])
         + grid(what=['on', 'off'], k=[0], pdt=['default', 'scalar', 'array']),
         thorough=grid(what=['on', 'off'], k=[4, 5], pdt=['default', 'scalar', 'array']), cost=2,
         bounds='0 (a number) to 3 previous rates (5 thorough), 2 time steps; rates zero or at least 0.01')
def flow_history(c, what, k, pdt, n=2):
    """k previous rates as an array (k=0: one plain number)"""
    fa, pd = prev_dt(c, pdt, max(k, 1) if k else 2)
    xs = rates_of(c, 'prev', max(k, 1))
    oo = {f'consecutive_{what}_hours_min': c.real('lo', 0, 100), f'consecutive_{what}_hours_max': c.real('hi', 0, 1000)}
    fs, dt, S = onoff_unit(c, n, oo, c.pack(xs) if k else xs[0], fa)
    if pd is None:
        pd = [dt[0]] * max(k, 1)
    if not k:
        pd = pd[-1:]
    m = c.model(fs)
    o = ('u', 'f', 'OnOff')
    on = m.comp(*o, 'on')
    bits = [c.ite(x > 0, 1, 0) for x in xs]
    pst = bits if what == 'on' else [1 - b for b in bits]
    state = on if what == 'on' else [1 - x for x in on]
    D0 = trailing(c, pst, pd)
    rep = m.comp(*o, 'consecutiveOnHours' if what == 'on' else 'consecutiveOffHours')
    c.sound(m, 'phase length carried into the first step', rep[0] == c.ite(state[0] == 1, D0 + dt[0], 0))
    c.sound(m, 'start in the first step', iff(m.comp(*o, 'switchOn')[0] == 1, conj(on[0] == 1, bits[-1] == 0)))
    c.sound(m, 'stop in the first step', iff(m.comp(*o, 'switchOff')[0] == 1, conj(on[0] == 0, bits[-1] == 1)))
    c.sound(m, 'a phase begun before is finished', implies(state[0] == 0, disj(pst[-1] == 0, D0 >= oo[f'consecutive_{what}_hours_min'])))


@harness('C07', quick=grid(what=['on', 'off'], shape=['number', 'array'], k=[2]) + grid(what=['on'], shape=['array'], k=[3]) + grid(what=['on'], shape=['one'], k=[2]), cost=2,
         bounds='component with two flows and up to 3 previous rates each, 2 time steps')
def component_history(c, what, shape, k, n=2):
    """a component was on in a previous step if any of its flows was"""
    pdt = c.real('pdt', Fraction(1, 4), 24)
    fs, dt, costs = system(c, n, previous_dt_in_hours=pdt)
    kk = 1 if shape == 'number' else k
    fl, bits = [], [0] * kk
    for i in range(2):
        xs = rates_of(c, f'prev{i}_', kk)
        given = xs[0] if shape == 'number' else c.pack(xs)
        if shape == 'one' and i == 1:
            given, xs = None, [0] * kk
        fl.append(fx.Flow(f'f{i}', open_bus(f'b{i}'), size=c.real(f'size{i}', 0.01, 1000), previous_flow_rate=given))
        bits = [c.ite(disj(b == 1, x > 0), 1, 0) for b, x in zip(bits, xs)]
    lo = c.real('lo', 0, 100)
    fs.add_components(Component('u', inputs=fl[:1], outputs=fl[1:], on_off_parameters=fx.OnOffParameters(
        **{f'consecutive_{what}_hours_min': lo})))
    m = c.model(fs)
    on = m.comp('u', 'OnOff', 'on')
    pst = bits if what == 'on' else [1 - b for b in bits]
    state = on if what == 'on' else [1 - x for x in on]
    D0 = trailing(c, pst, [pdt] * kk)
    rep = m.comp('u', 'OnOff', 'consecutiveOnHours' if what == 'on' else 'consecutiveOffHours')
    c.sound(m, 'phase length carried into the first step', rep[0] == c.ite(state[0] == 1, D0 + dt[0], 0))
    c.sound(m, 'start in the first step', iff(m.comp('u', 'OnOff', 'switchOn')[0] == 1, conj(on[0] == 1, bits[-1] == 0)))
    c.sound(m, 'a phase begun before is finished', implies(state[0] == 0, disj(pst[-1] == 0, D0 >= lo)))
