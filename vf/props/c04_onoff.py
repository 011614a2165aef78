from flixOpt.elements import Component

from ..reg import grid, harness
from .common import *


def switches(on, prev=0):
    """witness values of start and stop indicators"""
    out_on, out_off, before = [], [], prev
    for x in on:
        out_on.append(smax(x - before, 0))
        out_off.append(smax(before - x, 0))
        before = x
    return out_on, out_off


def switch_witness(m, path, on, prev=0):
    if not m.has(*path, 'switchOn'):
        return []
    a, b = switches(on, prev)
    return [(m.v(*path, 'switchOn'), a), (m.v(*path, 'switchOff'), b)]


@harness('C04', quick=grid(lo=['default', 'scalar', 'array'], hi=['scalar', 'array'], hours=[None, 'both'])
         + grid(lo=['scalar'], hi=['default'], hours=['min', 'max'])
         + grid(lo=['array'], hi=['array'], hours=[None], side=['sink']),
         thorough=grid(lo=['array'], hi=['array'], hours=['both'], n=[3, 4]),
         bounds='2 time steps (4 thorough); free size, limits, durations')
def flow_on_off(c, lo, hi, hours, n=2, side='source'):
    fs, dt, costs = system(c, n)
    S = c.real('size', lo=0.01, hi=10**4)
    args, rmin, rmax = dict(size=S), [0] * n, [1] * n
    if lo != 'default':
        args['relative_minimum'], rmin = series(c, 'rmin', lo, n, lo=0, hi=1)
    if hi != 'default':
        args['relative_maximum'], rmax = series(c, 'rmax', hi, n, lo=0.01, hi=1)
    for t in range(n):
        c.assume(rmin[t] <= rmax[t])
    oo = {}
    hmin = hmax = None
    if hours in ('min', 'both'):
        oo['on_hours_total_min'] = hmin = c.real('hmin', 0, 100)
    if hours in ('max', 'both'):
        oo['on_hours_total_max'] = hmax = c.real('hmax', 0, 100)
    args['on_off_parameters'] = fx.OnOffParameters(**oo)
    unit(c, fs, open_bus(), side, args)
    m = c.model(fs)
    r, on, tot = rate(m, 'u', 'f'), m.comp('u', 'f', 'OnOff', 'on'), m.comp('u', 'f', 'OnOff', 'totalOnHours')
    spec = []
    for t in range(n):
        low = smax(EPS, rmin[t] * S)  # an on flow is at least the threshold
        s = conj(implies(on[t] == 0, r[t] == 0), implies(on[t] == 1, conj(r[t] >= low, r[t] <= rmax[t] * S)), is01(on[t]))
        c.sound(m, f'off means zero, on means within the limits at step {t}', s)
        spec.append(s)
    h = dot(on, dt)
    c.sound(m, 'on-hours are the durations of the on-steps', tot == h)
    if hmin is not None:
        c.sound(m, 'minimum on-hours', h >= hmin)
        spec.append(h >= hmin)
    if hmax is not None:
        c.sound(m, 'maximum on-hours', h <= hmax)
        spec.append(h <= hmax)
    wit = excess(m, 'bus', r if side == 'source' else [-x for x in r]) + switch_witness(m, ('Components', 'u', 'f', 'OnOff'), on)
    c.complete(m, 'every pattern and rate within the limits is possible', conj(*spec), [r, on], wit)


@harness('C04', quick=grid(k=[1, 2, 4], lo=[False, True], hours=[False]) + grid(k=[2], lo=[False], hours=[True]),
         bounds='a component with 1, 2 or 4 flows, 2 time steps')
def component_on_off(c, k, lo, hours, n=2):
    fs, dt, costs = system(c, n)
    S, rmin, flows, labels = [], [], [], []
    for i in range(k):
        S.append(c.real(f'size{i}', 0.01, 10**4))
        args = dict(size=S[i])
        if lo:
            args['relative_minimum'] = c.real(f'rmin{i}', 0, 1)
        rmin.append(args.get('relative_minimum', 0))
        flows.append(fx.Flow(f'f{i}', open_bus(f'b{i}'), **args))
    oo = {}
    if hours:
        oo = dict(on_hours_total_min=c.real('hmin', 0, 100), on_hours_total_max=c.real('hmax', 0, 100))
    comp = Component('u', inputs=flows[: k // 2], outputs=flows[k // 2:], on_off_parameters=fx.OnOffParameters(**oo))
    fs.add_components(comp)
    m = c.model(fs)
    on = m.comp('u', 'OnOff', 'on')
    r = [rate(m, 'u', f'f{i}') for i in range(k)]
    fon = [m.comp('u', f'f{i}', 'OnOff', 'on') for i in range(k)]
    spec = []
    for t in range(n):
        s = [is01(on[t]), implies(on[t] == 0, conj(*[x[t] == 0 for x in r])), implies(on[t] == 1, total(x[t] for x in r) >= EPS)]
        for i in range(k):
            s.append(conj(is01(fon[i][t]), implies(fon[i][t] == 0, r[i][t] == 0), r[i][t] <= S[i],
                          implies(fon[i][t] == 1, r[i][t] >= smax(EPS, rmin[i] * S[i]))))
        if k == 1:  # the single flow's own minimum applies to the component as well
            s.append(implies(on[t] == 1, r[0][t] >= smax(EPS, rmin[0] * S[0])))
        c.sound(m, f'component and flow states at step {t}', conj(*s))
        spec += s
    h = dot(on, dt)
    c.sound(m, 'on-hours', m.comp('u', 'OnOff', 'totalOnHours') == h)
    if hours:
        s = conj(h >= oo['on_hours_total_min'], h <= oo['on_hours_total_max'])
        c.sound(m, 'on-hour limits', s)
        spec.append(s)
    wit = switch_witness(m, ('Components', 'u', 'OnOff'), on)
    for i in range(k):
        sign = -1 if i < k // 2 else 1
        wit += excess(m, f'b{i}', [sign * x for x in r[i]])
        wit += switch_witness(m, ('Components', 'u', f'f{i}', 'OnOff'), fon[i])
    c.complete(m, 'every combination of flow states is possible', conj(*spec), [on, *r, *fon], wit)


@harness('C04', quick=grid(shape=['scalar', 'array', 'tsd'], where=['flow', 'component'], two=[False]) + grid(shape=['array'], where=['flow'], two=[True]),
         bounds='2 time steps, 1-2 effects')
def running_effects(c, shape, where, two, n=2):
    other = fx.Effect('co2', 'kg', 'co2')
    fs, dt, costs = system(c, n, effects=[other])
    e, vals = series(c, 'e', shape, n, -100, 100)
    eff, vals2 = e, [0] * n
    if two:
        e2, vals2 = series(c, 'g', 'array', n, -100, 100)
        eff = {costs: e, other: e2}
    oo = fx.OnOffParameters(effects_per_running_hour=eff)
    S = c.real('size', 0.01, 1000)
    args = dict(size=S)
    if where == 'flow':
        args['on_off_parameters'] = oo
        unit(c, fs, open_bus(), 'source', args)
        path = ('u', 'f', 'OnOff', 'on')
    else:
        unit(c, fs, open_bus(), 'source', args)
        fs.components['u'].on_off_parameters = oo
        path = ('u', 'OnOff', 'on')
    m = c.model(fs)
    on = m.comp(*path)
    for lab, vv in (('costs', vals), ('co2', vals2)):
        ts = m.effect(lab, 'operation', 'sum_TS')
        for t in range(n):
            c.sound(m, f'running effect on {lab} at step {t}', ts[t] == vv[t] * on[t] * dt[t])
        c.sound(m, f'total running effect on {lab}', m.effect(lab, 'operation', 'sum') == total(vv[t] * on[t] * dt[t] for t in range(n)))
