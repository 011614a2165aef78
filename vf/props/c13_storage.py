from ..reg import grid, harness
from .common import *


def charge_path(cs0, r_in, r_out, dt, eta_c, eta_d, loss):
    """the charge at every point in time that follows from the rates"""
    cs = [cs0]
    for t in range(len(dt)):
        cs.append(cs[-1] * (1 - loss[t] * dt[t]) + r_in[t] * eta_c[t] * dt[t] - r_out[t] / eta_d[t] * dt[t])
    return cs


def storage(c, fs, n, opts='', cap='given', limits='default', name='u', prevent=False, sizes=None, **kw):
    """a storage with the given kinds of inputs; returns everything needed to state its rules"""
    b0, b1 = open_bus(f'{name}b0'), open_bus(f'{name}b1')
    d = dict(eta_c=[1] * n, eta_d=[1] * n, loss=[0] * n, rmin=[0] * n, rmax=[1] * n)
    shape = {'s': 'scalar', 'a': 'array', 't': 'tsd'}
    for ch, key, arg, lo, hi in (('c', 'eta_c', 'eta_charge', 0.01, 2), ('d', 'eta_d', 'eta_discharge', 0.01, 2),
                                 ('l', 'loss', 'relative_loss_per_hour', 0, 1)):
        if ch in opts:
            kw[arg], d[key] = series(c, name + key, shape[opts[opts.index(ch) + 1]], n, lo, hi)
    if limits != 'default':
        k, limits = (n + 1, limits[:-4]) if limits.endswith(' end') else (n, limits)  # with or without a value for the end
        kw['relative_minimum_charge_state'], d['rmin'] = series(c, name + 'rmin', limits, k, 0, 1)
        kw['relative_maximum_charge_state'], d['rmax'] = series(c, name + 'rmax', limits, k, 0, 1)
        for t in range(k):
            c.assume(d['rmin'][t] <= d['rmax'][t])
    if cap == 'given':
        d['cap'] = c.real(name + 'cap', 0.01, 10**5)
        capacity = d['cap']
    elif cap == 'fixed':
        d['cap'] = c.real(name + 'cap', 0.01, 10**5)
        capacity = fx.InvestParameters(fixed_size=d['cap'], optional=False)
    else:
        d['max'] = c.real(name + 'max', 0.01, 10**5)
        capacity = fx.InvestParameters(maximum_size=d['max'], optional=False)
    d['S'] = [c.real(f'{name}size{i}', 0.01, 10**4) for i in range(2)]
    sto = fx.Storage(name, charging=fx.Flow('inn', b0, size=d['S'][0]), discharging=fx.Flow('out', b1, size=d['S'][1]),
                     capacity_in_flow_hours=capacity, prevent_simultaneous_charge_and_discharge=prevent, **kw)
    fs.add_components(sto)
    return sto, d


def parts(m, d, name='u'):
    cs = m.comp(name, 'charge_state')
    i, o = rate(m, name, 'inn'), rate(m, name, 'out')
    cap = d['cap'] if 'cap' in d else m.comp(name, 'Investment', 'size')
    return cs, i, o, cap


def rules(c, m, d, dt, cs0=None, name='u'):
    """claims the rules of the storage; returns the rules stated for rates and first charge alone"""
    n = len(dt)
    cs, i, o, cap = parts(m, d, name)
    c.sound(m, 'one more charge than steps', len(cs) == n + 1)
    rmin, rmax = d['rmin'] + d['rmin'][-1:], d['rmax'] + d['rmax'][-1:]
    for t in range(n):
        nxt = cs[t] * (1 - d['loss'][t] * dt[t]) + i[t] * d['eta_c'][t] * dt[t] - o[t] / d['eta_d'][t] * dt[t]
        c.sound(m, f'charge balance of step {t}', cs[t + 1] == nxt)
    for t in range(n + 1):
        c.sound(m, f'charge limits at point {t}', conj(cs[t] >= rmin[t] * cap, cs[t] <= rmax[t] * cap))
    path = charge_path(cs[0] if cs0 is None else cs0, i, o, dt, d['eta_c'], d['eta_d'], d['loss'])
    spec = [conj(x >= rmin[t] * cap, x <= rmax[t] * cap) for t, x in enumerate(path)]
    for t in range(n):
        spec += [conj(i[t] >= 0, i[t] <= d['S'][0]), conj(o[t] >= 0, o[t] <= d['S'][1])]
    if 'max' in d:
        spec.append(conj(cap >= EPS, cap <= d['max']))
    wit = [(cs, path)] + excess(m, f'{name}b0', [-x for x in i]) + excess(m, f'{name}b1', o)
    main = [i, o] + ([cap] if 'max' in d else [])
    return path, spec, wit, main


@harness('C13', quick=grid(opts=['', 'cs', 'ds', 'ls', 'csdsls', 'cadala', 'ctdtlt']) + grid(opts=['csdals'], equal=[True])
         + grid(opts=[''], limits=['scalar', 'array', 'tsd', 'array end', 'tsd end']) + grid(opts=['csdsls'], limits=['array', 'array end'], cap=['fixed', 'free'])
         + grid(opts=['cala'], n=[3], equal=[True]),
         thorough=grid(opts=['cadala'], n=[4]) + grid(opts=['cadala'], limits=['array'], cap=['given', 'free'], n=[3]),
         bounds='2 time steps (3, 4 thorough), efficiencies in [0.01, 2], hourly losses in [0, 1], free first charge')
def balance(c, opts, limits='default', cap='given', n=2, equal=False):
    fs, dt, costs = system(c, n, equal)
    sto, d = storage(c, fs, n, opts, cap, limits, initial_charge_state=None)
    m = c.model(fs)
    path, spec, wit, main = rules(c, m, d, dt)
    c.complete(m, 'every trajectory within the rules is possible', conj(*spec), [*main, parts(m, d)[0][0]], wit)


@harness('C13', quick=grid(second=['storage', 'none']), bounds='two storages at one bus, 2 time steps')
def several(c, second, n=2):
    fs, dt, costs = system(c, n)
    sto, d = storage(c, fs, n, 'csdals', initial_charge_state=None)
    other, e = storage(c, fs, n, 'cads' if second == 'storage' else '', 'free' if second == 'storage' else 'given', name='w',
                       initial_charge_state=None)
    m = c.model(fs)
    p1, s1, w1, m1 = rules(c, m, d, dt)
    p2, s2, w2, m2 = rules(c, m, e, dt, name='w')
    c.complete(m, 'every pair of trajectories is possible', conj(*s1, *s2), [*m1, *m2, parts(m, d)[0][0], parts(m, e, 'w')[0][0]], w1 + w2)


@harness('C14', quick=grid(start=['default', 'zero', 'number', 'none', 'cyclic'], end=['', 'min', 'max', 'minmax'])
         + grid(start=['number', 'cyclic'], end=['minmax'], cap=['fixed', 'free'])
         + grid(start=['cyclic', 'number'], end=['max'], opts=['cals']),
         thorough=grid(start=['default', 'number', 'none', 'cyclic'], end=['min', 'max', 'minmax'], n=[4], opts=['cals']),
         bounds='2 time steps (4 thorough), start and end values in [0, 1e5], given, fixed and optimised capacity')
def start_and_end(c, start, end, cap='given', opts='', n=2):
    fs, dt, costs = system(c, n)
    kw, cs0 = {}, None
    if start == 'zero':
        kw['initial_charge_state'] = 0
    elif start == 'number':
        kw['initial_charge_state'] = cs0 = c.real('start', 0.01, 10**5)
    elif start == 'none':
        kw['initial_charge_state'] = None
    elif start == 'cyclic':
        kw['initial_charge_state'] = 'lastValueOfSim'
    if start in ('default', 'zero'):
        cs0 = 0
    lo = hi = None
    if 'min' in end:
        kw['minimal_final_charge_state'] = lo = c.real('endmin', 0, 10**5)
    if 'max' in end:
        kw['maximal_final_charge_state'] = hi = c.real('endmax', 0, 10**5)
    sto, d = storage(c, fs, n, opts, cap, **kw)
    m = c.model(fs)
    path, spec, wit, main = rules(c, m, d, dt, cs0)
    cs = parts(m, d)[0]
    if cs0 is not None:
        c.sound(m, 'the charge starts at the given value', cs[0] == cs0)
    if start == 'cyclic':
        c.sound(m, 'the charge ends where it starts', cs[0] == cs[n])
        spec.append(path[n] == path[0])
    if lo is not None:
        c.sound(m, 'final minimum', cs[n] >= lo)
        spec.append(path[n] >= lo)
    if hi is not None:
        c.sound(m, 'final maximum', cs[n] <= hi)
        spec.append(path[n] <= hi)
    c.complete(m, 'everything in between is free', conj(*spec), main + ([cs[0]] if cs0 is None else []), wit)
