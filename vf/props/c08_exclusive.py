from flixOpt.elements import Component

from ..reg import grid, harness
from .c04_onoff import switch_witness
from .common import *


def at_most_one(rs):
    out = []
    for i in range(len(rs)):
        for j in range(i):
            out.append(disj(rs[i] == 0, rs[j] == 0))
    return conj(*out)


def zero_or_within(r, lo, hi):
    return disj(r == 0, conj(r >= smax(EPS, lo), r <= hi))


def on_witness(c, m, path, r):
    on = [c.ite(x > 0, 1, 0) for x in r]
    return [(m.comp(*path, 'OnOff', 'on'), on)] + switch_witness(m, ('Components', *path, 'OnOff'), on)


@harness('C08', quick=grid(k=[2, 3], n_in=[0, 1, 2], lo=[False], n=[2]) + grid(k=[4], n_in=[2], lo=[False], n=[2])
         + grid(k=[2], n_in=[1], lo=[True], n=[2]) + grid(k=[2], n_in=[1], lo=[False], n=[2], extra=[True]),
         thorough=grid(k=[3, 4], n_in=[1, 2], lo=[True], n=[2, 3]),
         bounds='2-4 exclusive flows of a component, 2 time steps (3 thorough), optionally a further flow outside the group')
def exclusive(c, k, n_in, lo, n, extra=False):
    fs, dt, costs = system(c, n)
    S, rmin, flows = [], [], []
    for i in range(k + extra):
        S.append(c.real(f'size{i}', 0.01, 10**4))
        args = dict(size=S[i])
        if lo:
            args['relative_minimum'] = c.real(f'rmin{i}', 0, 1)
        rmin.append(args.get('relative_minimum', 0))
        flows.append(fx.Flow(f'f{i}', open_bus(f'b{i}'), **args))
    ins, outs = flows[:n_in], flows[n_in:]
    comp = Component('u', inputs=ins, outputs=outs, prevent_simultaneous_flows=flows[:k])
    fs.add_components(comp)
    m = c.model(fs)
    r = [rate(m, 'u', f'f{i}') for i in range(k + extra)]
    spec = []
    for t in range(n):
        s = at_most_one([x[t] for x in r[:k]])
        c.sound(m, f'at most one flow runs at step {t}', s)
        spec.append(s)
        for i in range(k):
            spec.append(zero_or_within(r[i][t], rmin[i] * S[i], S[i]))
        for i in range(k, k + extra):
            spec.append(conj(r[i][t] >= rmin[i] * S[i], r[i][t] <= S[i]))
    wit = []
    for i in range(k + extra):
        wit += excess(m, f'b{i}', r[i] if i >= n_in else [-x for x in r[i]])
        if i < k:
            wit += on_witness(c, m, ('u', f'f{i}'), r[i])
    c.complete(m, 'each of them alone or none is possible', conj(*spec), r, wit)


@harness('C08', quick=grid(prevent=[True, False], size=['own', 'default']), bounds='a source and sink, 2 time steps')
def source_and_sink(c, prevent, size, n=2):
    fs, dt, costs = system(c, n)
    S = [c.real(f'size{i}', 0.01, 10**4) if size == 'own' else None for i in range(2)]
    b0, b1 = open_bus('b0'), open_bus('b1')
    kw = {} if prevent else dict(prevent_simultaneous_flows=False)
    comp = fx.SourceAndSink('u', source=fx.Flow('out', b0, size=S[0]), sink=fx.Flow('inn', b1, size=S[1]), **kw)
    fs.add_components(comp)
    m = c.model(fs)
    r = [rate(m, 'u', 'out'), rate(m, 'u', 'inn')]
    lim = [x if x is not None else 10**6 for x in S]
    spec = []
    for t in range(n):
        if prevent:
            s = at_most_one([x[t] for x in r])
            c.sound(m, f'buying and selling exclude each other at step {t}', s)
            spec += [s, *(zero_or_within(r[i][t], 0, lim[i]) for i in range(2))]
        else:
            spec += [conj(r[i][t] >= 0, r[i][t] <= lim[i]) for i in range(2)]
    wit = excess(m, 'b0', r[0]) + excess(m, 'b1', [-x for x in r[1]])
    if prevent:
        for i, f in enumerate(('out', 'inn')):
            wit += on_witness(c, m, ('u', f), r[i])
    c.complete(m, 'every other use is possible', conj(*spec), r, wit)


@harness('C08', quick=grid(prevent=['default', True, False]), bounds='a storage, 2 time steps')
def storage(c, prevent, n=2):
    fs, dt, costs = system(c, n)
    S = [c.real(f'size{i}', 0.01, 10**4) for i in range(2)]
    cap = c.real('cap', 0.01, 10**6)
    b0, b1 = open_bus('b0'), open_bus('b1')
    kw = {} if prevent == 'default' else dict(prevent_simultaneous_charge_and_discharge=prevent)
    comp = fx.Storage('u', charging=fx.Flow('inn', b0, size=S[0]), discharging=fx.Flow('out', b1, size=S[1]),
                      capacity_in_flow_hours=cap, initial_charge_state=None, **kw)
    fs.add_components(comp)
    m = c.model(fs)
    r = [rate(m, 'u', 'inn'), rate(m, 'u', 'out')]
    cs = m.comp('u', 'charge_state')
    spec = []
    for t in range(n):
        if prevent:
            s = at_most_one([x[t] for x in r])
            c.sound(m, f'charging and discharging exclude each other at step {t}', s)
            spec += [s, *(zero_or_within(r[i][t], 0, S[i]) for i in range(2))]
        else:
            spec += [conj(r[i][t] >= 0, r[i][t] <= S[i]) for i in range(2)]
    charge = [cs[0]]
    for t in range(n):
        charge.append(charge[-1] + (r[0][t] - r[1][t]) * dt[t])
    spec += [conj(x >= 0, x <= cap) for x in charge]
    wit = excess(m, 'b0', [-x for x in r[0]]) + excess(m, 'b1', r[1])
    if prevent:
        for i, f in enumerate(('inn', 'out')):
            wit += on_witness(c, m, ('u', f), r[i])
    c.complete(m, 'every other use within the capacity is possible', conj(*spec), [*r, cs[0]], wit)
