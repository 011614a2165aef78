from ..reg import grid, harness
from .c04_onoff import switch_witness
from .common import *


def phase_lengths(c, state, dt, prev):
    """hours since the current phase began, 0 outside"""
    out, d = [], prev
    for s, h in zip(state, dt):
        d = c.ite(s == 1, d + h, 0)
        out.append(d)
    return out


def onoff_unit(c, n, oo_args, previous=None, fs_args=None, label='f'):
    fs, dt, costs = system(c, n, **(fs_args or {}))
    S = c.real('size', 0.01, 1000)
    unit(c, fs, open_bus(), 'source', dict(size=S, on_off_parameters=fx.OnOffParameters(**oo_args), previous_flow_rate=previous))
    return fs, dt, S


PREV = [('none', None), ('off', 0), ('on', 1)]


@harness('C06', quick=grid(what=['on', 'off'], lim=['min', 'max', 'both'], shape=['scalar', 'array'], prev=['none', 'off', 'on'], n=[3])
         + grid(what=['on', 'off'], lim=['both'], shape=['tsd'], prev=['none'], n=[3]) + grid(what=['on'], lim=['both'], shape=['array'], prev=['none'], n=[4]),
         thorough=grid(what=['on', 'off'], lim=['min', 'max', 'both'], shape=['array'], prev=['on', 'off'], n=[4, 5]),
         cost=3, bounds='3-4 time steps (5 thorough) of free duration; limits free per step; one previous step of free duration')
def phase_limits(c, what, lim, shape, prev, n):
    oo = {}
    lo, hi = [0] * n, None
    if lim in ('min', 'both'):
        oo[f'consecutive_{what}_hours_min'], lo = series(c, 'lo', shape, n, 0, 100)
    if lim in ('max', 'both'):
        oo[f'consecutive_{what}_hours_max'], hi = series(c, 'hi', shape, n, 0, 100)
    pdt = c.real('pdt', Fraction(1, 4), 24)
    before = 1 if prev == 'on' else 0
    fs, dt, S = onoff_unit(c, n, oo, {'none': None, 'off': 0, 'on': 1}[prev], dict(previous_dt_in_hours=pdt))
    m = c.model(fs)
    o = ('u', 'f', 'OnOff')
    on = m.comp(*o, 'on')
    state = on if what == 'on' else [1 - x for x in on]
    pstate = before if what == 'on' else 1 - before
    D0 = pdt if pstate == 1 else 0
    D = phase_lengths(c, state, dt, D0)
    rep = m.comp(*o, 'consecutiveOnHours' if what == 'on' else 'consecutiveOffHours')
    spec = [is01(x) for x in on]
    for t in range(n):
        c.sound(m, f'reported phase length at step {t}', rep[t] == D[t])
        if hi is not None:
            s = implies(state[t] == 1, D[t] <= hi[t])
            c.sound(m, f'maximum phase length at step {t}', s)
            spec.append(s)
        if t + 1 < n:
            s = implies(conj(state[t] == 1, state[t + 1] == 0), D[t] >= lo[t])
            if lim != 'max':
                c.sound(m, f'minimum length of a phase ending at step {t}', s)
            spec.append(s)
    if lim != 'max' and pstate == 1:  # the phase that was going on before the horizon must also be finished
        s = implies(state[0] == 0, D0 >= lo[0])
        c.sound(m, 'minimum length of a phase ending with the history', s)
        spec.append(s)
    if hi is not None:  # limits that are not negative
        pass
    rates = [x * S for x in on]
    wit = [(rate(m, 'u', 'f'), rates), (rep, D)] + excess(m, 'bus', rates) + switch_witness(m, ('Components', *o), on, before)
    if what == 'off':
        wit.append((m.comp(*o, 'off'), state))
    c.complete(m, 'every pattern within the limits is possible', conj(*spec), [on], wit)


@harness('C06', quick=grid(n=[3], prev=['none', 'on']), cost=3, bounds='3 time steps, run and idle limits together')
def both_limits(c, n, prev):
    a = [c.real(x, 0, 100) for x in ('onmin', 'onmax', 'offmin', 'offmax')]
    oo = dict(consecutive_on_hours_min=a[0], consecutive_on_hours_max=a[1], consecutive_off_hours_min=a[2], consecutive_off_hours_max=a[3])
    pdt = c.real('pdt', Fraction(1, 4), 24)
    before = 1 if prev == 'on' else 0
    fs, dt, S = onoff_unit(c, n, oo, None if prev == 'none' else before, dict(previous_dt_in_hours=pdt))
    m = c.model(fs)
    on = m.comp('u', 'f', 'OnOff', 'on')
    off = [1 - x for x in on]
    D = phase_lengths(c, on, dt, pdt * before)
    F = phase_lengths(c, off, dt, pdt * (1 - before))
    for t in range(n):
        c.sound(m, f'run length at step {t}', D[t] <= a[1])
        c.sound(m, f'idle length at step {t}', F[t] <= a[3])
        if t + 1 < n:
            c.sound(m, f'run ending at {t}', implies(conj(on[t] == 1, on[t + 1] == 0), D[t] >= a[0]))
            c.sound(m, f'idle phase ending at {t}', implies(conj(off[t] == 1, off[t + 1] == 0), F[t] >= a[2]))


@harness('C06', quick=grid(what=['on', 'off']), cost=2, bounds='component with two flows, 3 time steps')
def component_phases(c, what, n=3):
    from flixOpt.elements import Component

    fs, dt, costs = system(c, n)
    lo, hi = c.real('lo', 0, 100), c.real('hi', 0, 100)
    fl = [fx.Flow(f'f{i}', open_bus(f'b{i}'), size=c.real(f'size{i}', 0.01, 1000)) for i in range(2)]
    fs.add_components(Component('u', inputs=fl[:1], outputs=fl[1:], on_off_parameters=fx.OnOffParameters(
        **{f'consecutive_{what}_hours_min': lo, f'consecutive_{what}_hours_max': hi})))
    m = c.model(fs)
    on = m.comp('u', 'OnOff', 'on')
    state = on if what == 'on' else [1 - x for x in on]
    D = phase_lengths(c, state, dt, 0 if what == 'on' else dt[0])
    for t in range(n):
        c.sound(m, f'maximum at step {t}', implies(state[t] == 1, D[t] <= hi))
        if t + 1 < n:
            c.sound(m, f'minimum at step {t}', implies(conj(state[t] == 1, state[t + 1] == 0), D[t] >= lo))
