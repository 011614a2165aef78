from ..reg import grid, harness
from flixOpt.elements import Component

from .common import *


@harness('C02', quick=grid(side=['source', 'sink'], lo=['default', 'scalar', 'array'], hi=['default', 'scalar', 'array'])
         + grid(side=['source'], lo=['tsd', 'scalar'], hi=['tsd']),
         thorough=grid(side=['source'], lo=['array'], hi=['array', 'tsd'], n=[5]),
         bounds='2 time steps (5 thorough), free size in [0.01, 1e4], free relative bounds in [0, 2]')
def flow_limits(c, side, lo, hi, n=2):
    fs, dt, costs = system(c, n)
    S = c.real('size', lo=0.01, hi=10**4)
    args, rmin, rmax = dict(size=S), [0] * n, [1] * n
    if lo != 'default':
        args['relative_minimum'], rmin = series(c, 'rmin', lo, n, lo=0, hi=1 if hi == 'default' else 2)
    if hi != 'default':
        args['relative_maximum'], rmax = series(c, 'rmax', hi, n, lo=0, hi=2)
    for t in range(n):
        c.assume(rmin[t] <= rmax[t])
    bus = open_bus()
    unit(c, fs, bus, side, args)
    m = c.model(fs)
    r = rate(m, 'u', 'f')
    spec = conj(*[conj(r[t] >= rmin[t] * S, r[t] <= rmax[t] * S) for t in range(n)])
    for t in range(n):
        c.sound(m, f'lower limit at step {t}', r[t] >= rmin[t] * S)
        c.sound(m, f'upper limit at step {t}', r[t] <= rmax[t] * S)
    net = r if side == 'source' else [-x for x in r]
    c.complete(m, 'every rate within the limits is possible', spec, [r], excess(m, 'bus', net))


@harness('C02', quick=grid(side=['source', 'sink'], prof=['scalar', 'array', 'tsd'], extra=[False]) +
         grid(side=['sink'], prof=['array'], extra=[True]),
         bounds='2 time steps, free size and profile')
def fixed_profile(c, side, prof, extra, n=2):
    fs, dt, costs = system(c, n)
    S = c.real('size', lo=0.01, hi=10**4)
    p, vals = series(c, 'prof', prof, n, lo=0, hi=2)
    args = dict(size=S, fixed_relative_profile=p)
    if extra:  # a relative range given besides a profile has no meaning
        args['relative_minimum'] = c.real('rmin', 0, 1)
    unit(c, fs, open_bus(), side, args)
    m = c.model(fs)
    r = rate(m, 'u', 'f')
    c.sound(m, 'rate equals profile times size', [r[t] == vals[t] * S for t in range(n)])
    net = r if side == 'source' else [-x for x in r]
    c.complete(m, 'the profile itself is possible', conj(*[r[t] == vals[t] * S for t in range(n)]), [r], excess(m, 'bus', net))


@harness('C02', quick=grid(with_max=[False, True]), bounds='2 time steps; a flow without a stated size')
def default_size(c, with_max, n=2):
    fs, dt, costs = system(c, n)
    args, rmax = {}, [1] * n
    if with_max:
        args['relative_maximum'], rmax = series(c, 'rmax', 'array', n, lo=0, hi=1)
    unit(c, fs, open_bus(), 'source', args)
    m = c.model(fs)
    r = rate(m, 'u', 'f')
    c.complete(m, 'rates up to a large default size are possible',
               conj(*[conj(r[t] >= 0, r[t] <= rmax[t] * 10**6) for t in range(n)]), [r], excess(m, 'bus', r))
    c.sound(m, 'rates are not negative', [x >= 0 for x in r])


@harness('C02', quick=grid(which=['in', 'out']), bounds='2 flows per side of one component, 2 time steps')
def several_flows(c, which, n=2):
    """limits belong to each flow of a component separately"""
    fs, dt, costs = system(c, n)
    b1, b2 = open_bus('b1'), open_bus('b2')
    S, lo, hi = [], [], []
    flows = []
    for i, b in enumerate((b1, b2)):
        S.append(c.real(f'size{i}', 0.01, 10**4))
        lo.append(series(c, f'rmin{i}', 'array', n, 0, 1))
        hi.append(series(c, f'rmax{i}', 'array', n, 0, 1))
        for t in range(n):
            c.assume(lo[i][1][t] <= hi[i][1][t])
        flows.append(fx.Flow(f'f{i}', b, size=S[i], relative_minimum=lo[i][0], relative_maximum=hi[i][0]))
    comp = Component('u', inputs=flows if which == 'in' else [], outputs=[] if which == 'in' else flows)
    fs.add_components(comp)
    m = c.model(fs)
    for i in range(2):
        r = rate(m, 'u', f'f{i}')
        for t in range(n):
            c.sound(m, f'limits of flow {i} at step {t}', conj(r[t] >= lo[i][1][t] * S[i], r[t] <= hi[i][1][t] * S[i]))
