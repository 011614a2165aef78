from ..reg import grid, harness
from .common import *


def penalty(c, kind, n):
    if kind == 'none':
        return None
    if kind == 'zero':
        return 0
    return series(c, 'pen', kind, n, 0.01, 1000)[0]


def balance_claims(c, m, kind, ins, outs, spec, main, n, label='bus'):
    if kind != 'none':
        xi, xo = m.v('Buses', label, 'excess_input'), m.v('Buses', label, 'excess_output')
        main = main + [xi, xo]
    else:
        c.holds('no excess at a bus without penalty', not m.has('Buses', label, 'excess_input') and not m.has('Buses', label, 'excess_output'))
    for t in range(n):
        left, right = total([f[t] for f in ins] + [0]), total([f[t] for f in outs] + [0])
        if kind == 'none':
            s = left == right
        else:
            s = conj(left + xi[t] == right + xo[t], xi[t] >= 0, xo[t] >= 0)
        c.sound(m, f'balance at step {t}', s)
        spec.append(s)
    return main


@harness('C01', quick=grid(n_in=[1, 2], n_out=[1, 2], excess=['none', 'scalar', 'array'])
         + grid(n_in=[3], n_out=[0, 3], excess=['none', 'zero', 'tsd']) + grid(n_in=[0], n_out=[2], excess=['zero', 'none'])
         + grid(n_in=[1], n_out=[2], excess=['none', 'array'], n=[4], equal=[True, False]),
         thorough=grid(n_in=[3], n_out=[3], excess=['none', 'zero', 'array'], n=[6])
         + grid(n_in=[8], n_out=[6], excess=['none', 'array'], n=[2]),
         bounds='up to 3 sources and 3 sinks and 4 steps (14 flows, 6 steps thorough) at one bus')
def bus_balance(c, n_in, n_out, excess, n=2, equal=False):
    fs, dt, costs = system(c, n, equal)
    bus = fx.Bus('bus', excess_penalty_per_flow_hour=penalty(c, excess, n))
    S = []
    for i in range(n_in + n_out):
        S.append(c.real(f's{i}', 0.01, 10**4))
        unit(c, fs, bus, 'source' if i < n_in else 'sink', dict(size=S[i]), label=f'u{i}')
    m = c.model(fs)
    r = [rate(m, f'u{i}', 'f') for i in range(n_in + n_out)]
    spec = [conj(x >= 0, x <= s) for f, s in zip(r, S) for x in f]
    main = balance_claims(c, m, excess, r[:n_in], r[n_in:], spec, r, n)
    c.complete(m, 'nothing else ties the flows together', conj(*spec), main)


@harness('C01', quick=grid(excess=['none', 'scalar'], case=['converter', 'loop', 'storage', 'both', 'transmission']),
         thorough=grid(excess=['none', 'scalar'], case=['converter', 'loop', 'storage', 'both', 'transmission'], n=[4]),
         bounds='components with several flows at the same bus or at two buses, 2 time steps (4 thorough)')
def mixed(c, excess, case, n=2):
    fs, dt, costs = system(c, n)
    bus = fx.Bus('bus', excess_penalty_per_flow_hour=penalty(c, excess, n))
    other = open_bus('other')
    S = [c.real(f's{i}', 0.01, 10**4) for i in range(4)]
    f = lambda i, b: fx.Flow(f'f{i}', b, size=S[i])  # noqa: E731
    spec = []
    if case == 'converter':  # two inputs and one output at the bus, one output elsewhere
        k = [c.real(f'k{i}', 0.01, 10) for i in range(4)]
        fl = [f(0, bus), f(1, bus), f(2, bus), f(3, other)]
        fs.add_components(fx.LinearConverter('u', inputs=fl[:2], outputs=fl[2:], conversion_factors=[dict(zip(fl, k))]))
    elif case == 'loop':  # takes from and gives to the same bus
        fl = [f(0, bus), f(1, bus)]
        k = [c.real(f'k{i}', 0.01, 10) for i in range(2)]
        fs.add_components(fx.LinearConverter('u', inputs=fl[:1], outputs=fl[1:], conversion_factors=[dict(zip(fl, k))]))
    elif case == 'storage':
        fs.add_components(fx.Storage('u', charging=f(0, bus), discharging=f(1, bus), capacity_in_flow_hours=c.real('cap', 1, 10**4),
                                     initial_charge_state=None, prevent_simultaneous_charge_and_discharge=False))
    elif case == 'both':
        fs.add_components(fx.SourceAndSink('u', source=f(1, bus), sink=f(0, bus), prevent_simultaneous_flows=False))
    else:
        fs.add_components(fx.Transmission('u', f(0, bus), f(1, other), f(2, other), f(3, bus), relative_losses=c.real('loss', 0, 0.9),
                                          prevent_simultaneous_flows_in_both_directions=False))
    T = [c.real(f't{i}', 0.01, 10**4) for i in range(2)]
    unit(c, fs, bus, 'source', dict(size=T[0]), label='src')
    unit(c, fs, bus, 'sink', dict(size=T[1]), label='snk')
    m = c.model(fs)
    src, snk = rate(m, 'src', 'f'), rate(m, 'snk', 'f')
    r = {i: rate(m, 'u', f'f{i}') for i in range(4) if m.has('Components', 'u', f'f{i}')}
    take, give = {'converter': ([0, 1], [2]), 'transmission': ([0], [3])}.get(case, ([0], [1]))
    balance_claims(c, m, excess, [src] + [r[i] for i in give], [snk] + [r[i] for i in take], spec, [], n)
    if case == 'transmission':  # the far end is another bus with its own balance
        xi, xo = m.v('Buses', 'other', 'excess_input'), m.v('Buses', 'other', 'excess_output')
        for t in range(n):
            c.sound(m, f'balance of the other bus at step {t}', r[1][t] + xi[t] == r[2][t] + xo[t])


@harness('C01', quick=grid(k=[2, 3]), bounds='a chain of 2 to 3 buses with different penalties, 2 time steps')
def chain(c, k, n=2):
    fs, dt, costs = system(c, n)
    kinds = ['none', 'scalar', 'none'][:k] if k > 2 else ['scalar', 'none']
    buses = [fx.Bus(f'b{i}', excess_penalty_per_flow_hour=penalty(c, kinds[i], n) if kinds[i] == 'none' else c.real(f'p{i}', 0.01, 100)) for i in range(k)]
    S = [[c.real(f's{i}_{j}', 0.01, 10**4) for j in range(2)] for i in range(k - 1)]
    for i in range(k - 1):
        a, b = fx.Flow('a', buses[i], size=S[i][0]), fx.Flow('b', buses[i + 1], size=S[i][1])
        fs.add_components(fx.LinearConverter(f'c{i}', inputs=[a], outputs=[b], conversion_factors=[{a: c.real(f'k{i}', 0.01, 10), b: 1}]))
    s0, s1 = c.real('s_in', 0.01, 10**4), c.real('s_out', 0.01, 10**4)
    unit(c, fs, buses[0], 'source', dict(size=s0), label='src')
    unit(c, fs, buses[-1], 'sink', dict(size=s1), label='snk')
    m = c.model(fs)
    for i in range(k):
        ins = [rate(m, 'src', 'f')] if i == 0 else [rate(m, f'c{i - 1}', 'b')]
        outs = [rate(m, 'snk', 'f')] if i == k - 1 else [rate(m, f'c{i}', 'a')]
        balance_claims(c, m, kinds[i], ins, outs, [], [], n, label=f'b{i}')
