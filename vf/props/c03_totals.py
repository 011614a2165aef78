from ..reg import grid, harness
from .common import *


@harness('C03', quick=grid(lim=['none', 'min', 'max', 'both'], n=[2, 3]) + grid(lim=['both'], n=[2], side=['sink']),
         thorough=grid(lim=['both'], n=[6]), bounds='2-3 time steps (6 thorough) of free durations, free size and limits')
def totals(c, lim, n, side='source'):
    fs, dt, costs = system(c, n)
    S = c.real('size', lo=0.01, hi=10**4)
    args = dict(size=S)
    lo = hi = None
    if lim in ('min', 'both'):
        args['flow_hours_total_min'] = lo = c.real('lo', lo=0, hi=10**5)
    if lim in ('max', 'both'):
        args['flow_hours_total_max'] = hi = c.real('hi', lo=0, hi=10**6)
    unit(c, fs, open_bus(), side, args)
    m = c.model(fs)
    r, tot = rate(m, 'u', 'f'), m.comp('u', 'f', 'sumFlowHours')
    hours = dot(r, dt)
    c.sound(m, 'flow hours are the sum of rate times duration', tot == hours)
    spec = [conj(x >= 0, x <= S) for x in r]
    if lo is not None:
        c.sound(m, 'minimum total', hours >= lo)
        spec.append(hours >= lo)
    if hi is not None:
        c.sound(m, 'maximum total', hours <= hi)
        spec.append(hours <= hi)
    c.complete(m, 'every total within the limits is possible', conj(*spec), [r],
               excess(m, 'bus', r if side == 'source' else [-x for x in r]))


@harness('C03', quick=grid(lim=['min', 'max', 'both'], size=['given', 'invest', 'optional', 'fixed'], n=[2]) + grid(lim=['both'], size=['given'], n=[3]),
         thorough=grid(lim=['both'], size=['given', 'invest'], n=[5]),
         bounds='2-3 time steps (5 thorough), free durations, sizes and load factors')
def load_factor(c, lim, size, n):
    fs, dt, costs = system(c, n)
    args = {}
    if size == 'given':
        S = args['size'] = c.real('size', lo=0.01, hi=10**4)
    else:
        up = c.real('smax', lo=0.5, hi=10**3)
        if size == 'fixed':
            args['size'] = fx.InvestParameters(fixed_size=up, optional=False)
        else:
            args['size'] = fx.InvestParameters(minimum_size=0, maximum_size=up, optional=size == 'optional')
    T = total(dt)
    lo = hi = None
    if lim in ('min', 'both'):
        args['load_factor_min'] = lo = c.real('lo', lo=0, hi=1)
    if lim in ('max', 'both'):
        args['load_factor_max'] = hi = c.real('hi', lo=0, hi=1)
    unit(c, fs, open_bus(), 'source', args)
    m = c.model(fs)
    r = rate(m, 'u', 'f')
    main, wit = [r], excess(m, 'bus', r)
    spec = []
    if size == 'fixed':
        S = up
    elif size != 'given':
        S = m.comp('u', 'f', 'Investment', 'size')
        main.append(S)
        if size == 'invest':
            spec.append(conj(S >= 0, S <= up))
        else:  # optional: not invested means size 0
            inv = m.comp('u', 'f', 'Investment', 'isInvested')
            main.append(inv)
            spec += [implies(inv == 0, S == 0), S >= EPS * inv, S <= up]
    spec += [conj(x >= 0, x <= S) for x in r]
    hours = dot(r, dt)
    if lo is not None:
        c.sound(m, 'minimum load factor', hours >= lo * S * T)
        spec.append(hours >= lo * S * T)
    if hi is not None:
        c.sound(m, 'maximum load factor', hours <= hi * S * T)
        spec.append(hours <= hi * S * T)
    if size == 'fixed':
        wit = wit + [(m.comp('u', 'f', 'Investment', 'size'), up)]
    c.complete(m, 'every total within the load factors is possible', conj(*spec), main, wit)
