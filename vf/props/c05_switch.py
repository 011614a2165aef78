from ..reg import grid, harness
from .c04_onoff import switch_witness
from .common import *


def history(c, kind, k=2, hi=100, name='prev'):
    """previous flow rates; returns (argument, state before the horizon as 0/1)"""
    if kind == 'none':
        return None, 0
    if kind == 'scalar':
        p = c.real(name, 0, hi)
        # the threshold region is documented as tolerance; keep away from it
        c.assume(disj(p == 0, p >= 0.01))
        return p, c.ite(p > 0, 1, 0)
    xs = []
    for i in range(k):
        x = c.real(f'{name}{i}', 0, hi)
        c.assume(disj(x == 0, x >= 0.01))
        xs.append(x)
    return c.pack(xs), c.ite(xs[-1] > 0, 1, 0)


@harness('C05', quick=grid(prev=['none', 'scalar', 'array'], limit=[False, True], n=[2]) + grid(prev=['scalar'], limit=[True], n=[4]),
         thorough=grid(prev=['array'], limit=[True], n=[5], k=[1, 3]),
         bounds='2-4 time steps (5 thorough), up to 3 previous rates')
def starts(c, prev, limit, n, k=2):
    fs, dt, costs = system(c, n)
    oo = {}
    if limit:
        oo['switch_on_total_max'] = mx = c.real('maxstarts', 0, 10)
    else:
        oo['force_switch_on'] = True
    p, before = history(c, prev, k)
    S = c.real('size', 0.01, 1000)
    unit(c, fs, open_bus(), 'source', dict(size=S, on_off_parameters=fx.OnOffParameters(**oo), previous_flow_rate=p))
    m = c.model(fs)
    o = ('u', 'f', 'OnOff')
    on, son, soff, nr = (m.comp(*o, x) for x in ('on', 'switchOn', 'switchOff', 'nrSwitchOn'))
    spec = []
    b = before
    for t in range(n):
        c.sound(m, f'start at step {t}', iff(son[t] == 1, conj(on[t] == 1, b == 0)))
        c.sound(m, f'stop at step {t}', iff(soff[t] == 1, conj(on[t] == 0, b == 1)))
        b = on[t]
    count = total(smax(on[t] - (before if t == 0 else on[t - 1]), 0) for t in range(n))
    c.sound(m, 'number of starts', nr == count)
    if limit:
        c.sound(m, 'maximum number of starts', count <= mx)
        spec.append(count <= mx)
    r = rate(m, 'u', 'f')
    rates = [c.ite(on[t] == 1, S, 0) for t in range(n)] if False else [on[t] * S for t in range(n)]
    wit = switch_witness(m, ('Components', *o), on, before) + [(r, rates)] + excess(m, 'bus', rates)
    c.assume(S >= 0.01)
    c.complete(m, 'every pattern within the limit is possible', conj(*spec, *[is01(x) for x in on]), [on], wit)


@harness('C05', quick=grid(shape=['scalar', 'array', 'tsd'], prev=['none'], two=[False]) + grid(shape=['array'], prev=['scalar'], two=[True])
         + grid(shape=['scalar'], prev=['scalar'], two=[False], where=['component']),
         bounds='3 time steps, 1-2 effects')
def start_effects(c, shape, prev, two, n=3, where='flow'):
    other = fx.Effect('co2', 'kg', 'co2')
    fs, dt, costs = system(c, n, effects=[other])
    e, vals = series(c, 'e', shape, n, -100, 100)
    eff, vals2 = e, [0] * n
    if two:
        e2, vals2 = series(c, 'g', 'array', n, -100, 100)
        eff = {costs: e, other: e2}
    p, before = history(c, prev)
    oo = fx.OnOffParameters(effects_per_switch_on=eff)
    args = dict(size=c.real('size', 0.01, 1000), previous_flow_rate=p)
    o = ('u', 'f', 'OnOff')
    if where == 'flow':
        args['on_off_parameters'] = oo
        unit(c, fs, open_bus(), 'source', args)
    else:
        unit(c, fs, open_bus(), 'source', args)
        fs.components['u'].on_off_parameters = oo
        o = ('u', 'OnOff')
    m = c.model(fs)
    on = m.comp(*o, 'on')
    for lab, vv in (('costs', vals), ('co2', vals2)):
        ts = m.effect(lab, 'operation', 'sum_TS')
        b = before
        for t in range(n):
            c.sound(m, f'effect of a start on {lab} at step {t}', ts[t] == vv[t] * smax(on[t] - b, 0))
            b = on[t]
