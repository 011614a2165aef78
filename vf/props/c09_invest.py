from ..reg import grid, harness
from .c04_onoff import switch_witness
from .common import *


def invest_args(c, kind, optional, name=''):
    """size options; returns (arguments, smallest, largest or None)"""
    if kind == 'fixed':
        s = c.real(f'fixed{name}', 0.01, 10**4)
        return dict(fixed_size=s, optional=optional), s, s
    if kind == 'zero':
        return dict(fixed_size=0, optional=optional), 0, 0
    if kind == 'range':
        a, b = c.real(f'min{name}', 0, 10**4), c.real(f'max{name}', 0, 10**4)
        c.assume(a <= b)
        if optional:
            c.assume(b >= 0.01)
        return dict(minimum_size=a, maximum_size=b, optional=optional), a, b
    if kind == 'max':
        b = c.real(f'max{name}', 0.01, 10**4)
        return dict(maximum_size=b, optional=optional), 0, b
    return dict(optional=optional), 0, None


def size_spec(m, path, optional, lo, hi, limit=10**6):
    """(size, specification of the size, reported decision)"""
    S = m.comp(*path, 'size')
    top = limit if hi is None else hi
    if not optional:
        return S, conj(S >= lo, S <= top), None
    inv = m.comp(*path, 'isInvested')
    return S, conj(is01(inv), implies(inv == 0, S == 0), implies(inv == 1, conj(S >= smax(lo, EPS if lo is not hi else lo), S <= top))), inv


KINDS = ['fixed', 'range', 'max', 'default']


@harness('C09', quick=grid(kind=KINDS, optional=[True, False], limits=['default', 'array', 'prof'])
         + grid(kind=['zero'], optional=[True, False], limits=['array'])
         + grid(kind=['range'], optional=[True, False], limits=['scalar', 'tsd', 'prof_tsd'], side=['sink']),
         thorough=grid(kind=['fixed', 'range'], optional=[True, False], limits=['array', 'prof'], n=[5]),
         bounds='2 time steps (5 thorough), sizes in [0, 1e4], relative limits in [0, 2]')
def flow_size(c, kind, optional, limits, n=2, side='source'):
    fs, dt, costs = system(c, n)
    ia, lo, hi = invest_args(c, kind, optional)
    args = dict(size=fx.InvestParameters(**ia))
    rmin, rmax, prof = [0] * n, [1] * n, None
    if limits.startswith('prof'):
        args['fixed_relative_profile'], prof = series(c, 'prof', 'tsd' if limits == 'prof_tsd' else 'array', n, 0, 2)
    elif limits != 'default':
        args['relative_minimum'], rmin = series(c, 'rmin', limits, n, 0, 2)
        args['relative_maximum'], rmax = series(c, 'rmax', limits, n, 0, 2)
        for t in range(n):
            c.assume(rmin[t] <= rmax[t])
    unit(c, fs, open_bus(), side, args)
    m = c.model(fs)
    S, spec, inv = size_spec(m, ('u', 'f', 'Investment'), optional, lo, hi)
    r = rate(m, 'u', 'f')
    if hi is not None:
        c.sound(m, 'size is zero or within its limits', spec)
    rules = []
    for t in range(n):
        s = conj(r[t] >= rmin[t] * S, r[t] <= rmax[t] * S) if prof is None else r[t] == prof[t] * S
        c.sound(m, f'rate follows the size at step {t}', s)
        rules.append(s)
    main = [S, r] + ([inv] if inv is not None else [])
    c.complete(m, 'every size and rate within the limits is possible', conj(spec, *rules), main,
               excess(m, 'bus', r if side == 'source' else [-x for x in r]))
    if optional:
        c.complete(m, 'the investment can be left out', conj(S == 0, inv == 0, *[x == 0 for x in r]), main,
                   excess(m, 'bus', r if side == 'source' else [-x for x in r]))


@harness('C09', quick=grid(kind=['fixed', 'range', 'max'], optional=[True, False], limits=['default', 'array'])
         + grid(kind=['fixed', 'range'], optional=[True], limits=['prof']),
         thorough=grid(kind=['fixed', 'range'], optional=[True, False], limits=['array'], n=[4]),
         bounds='2 time steps (4 thorough); flow with on/off behaviour')
def on_off_size(c, kind, optional, limits, n=2):
    fs, dt, costs = system(c, n)
    ia, lo, hi = invest_args(c, kind, optional)
    args = dict(size=fx.InvestParameters(**ia), on_off_parameters=fx.OnOffParameters())
    rmin, rmax, prof = [0] * n, [1] * n, None
    if limits == 'array':
        args['relative_minimum'], rmin = series(c, 'rmin', limits, n, 0, 1)
        args['relative_maximum'], rmax = series(c, 'rmax', limits, n, 0.01, 1)
        for t in range(n):
            c.assume(rmin[t] <= rmax[t])
    elif limits == 'prof':
        args['fixed_relative_profile'], prof = series(c, 'prof', 'array', n, 0, 2)
    unit(c, fs, open_bus(), 'source', args)
    m = c.model(fs)
    S, spec, inv = size_spec(m, ('u', 'f', 'Investment'), optional, lo, hi)
    r, on = rate(m, 'u', 'f'), m.comp('u', 'f', 'OnOff', 'on')
    c.sound(m, 'size is zero or within its limits', spec)
    rules = []
    for t in range(n):
        s = [is01(on[t]), implies(on[t] == 0, r[t] == 0), implies(on[t] == 1, conj(r[t] >= EPS, r[t] >= rmin[t] * S, r[t] <= rmax[t] * S) if prof is None else r[t] >= EPS)]
        if prof is not None:
            s.append(r[t] == prof[t] * S)
        c.sound(m, f'off is zero and on follows the size at step {t}', conj(*s))
        rules += s
    main = [S, r, on] + ([inv] if inv is not None else [])
    wit = excess(m, 'bus', r) + switch_witness(m, ('Components', 'u', 'f', 'OnOff'), on)
    c.complete(m, 'every size, state and rate within the limits is possible', conj(spec, *rules), main, wit)


@harness('C09', quick=grid(kind=['fixed', 'range', 'max', 'default'], optional=[True, False], limits=['default', 'scalar'])
         + grid(kind=['fixed', 'range'], optional=[True, False], limits=['array']),
         thorough=grid(kind=['range'], optional=[True, False], limits=['array'], n=[4]),
         bounds='2 time steps (4 thorough); storage capacity')
def storage_size(c, kind, optional, limits, n=2):
    fs, dt, costs = system(c, n)
    ia, lo, hi = invest_args(c, kind, optional)
    rmin, rmax, kw = [0] * n, [1] * n, {}
    if limits != 'default':
        kw['relative_minimum_charge_state'], rmin = series(c, 'rmin', limits, n, 0, 1)
        kw['relative_maximum_charge_state'], rmax = series(c, 'rmax', limits, n, 0, 1)
        for t in range(n):
            c.assume(rmin[t] <= rmax[t])
    b0, b1 = open_bus('b0'), open_bus('b1')
    sto = fx.Storage('u', charging=fx.Flow('inn', b0), discharging=fx.Flow('out', b1), capacity_in_flow_hours=fx.InvestParameters(**ia),
                     initial_charge_state=None, prevent_simultaneous_charge_and_discharge=False, **kw)
    fs.add_components(sto)
    m = c.model(fs)
    S, spec, inv = size_spec(m, ('u', 'Investment'), optional, lo, hi)
    if hi is not None:
        c.sound(m, 'capacity is zero or within its limits', spec)
    cs = m.comp('u', 'charge_state')
    rmin, rmax = rmin + rmin[-1:], rmax + rmax[-1:]
    rules = []
    for t in range(n + 1):
        s = conj(cs[t] >= rmin[t] * S, cs[t] <= rmax[t] * S)
        c.sound(m, f'charge follows the capacity at point {t}', s)
        rules.append(s)
    i, o = rate(m, 'u', 'inn'), rate(m, 'u', 'out')
    main = [S, cs] + ([inv] if inv is not None else [])
    wit = []
    for t in range(n):
        d = (cs[t + 1] - cs[t]) / dt[t]
        wit += [(i[t], smax(d, 0)), (o[t], smax(-d, 0))]
    wi, wo = [w for _, w in wit[0::2]], [w for _, w in wit[1::2]]
    wit += excess(m, 'b0', [-x for x in wi]) + excess(m, 'b1', wo)
    c.complete(m, 'every capacity and charge within the limits is possible', conj(spec, *rules), main, wit)
