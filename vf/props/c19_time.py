import numpy as np

from ..reg import grid, harness
from .common import *


def stamps_of(c, n, equal):
    """n time stamps (n - 1 free durations)"""
    if n == 1:
        return c.stamps([1]), []
    dt = [c.real('dt', 0.25, 24)] * (n - 1) if equal else [c.real(f'dt{i}', 0.25, 24) for i in range(n - 1)]
    return c.stamps(dt + [1]), dt


def hours(c, a, b):
    """hours from one time stamp to the next"""
    d = b - a
    return d.h if c.is_sym else float(d / np.timedelta64(1, 'us')) / 3600e6


@harness('C19', quick=grid(n=[2, 3, 5], last=['none', 'given'], equal=[True, False], select=['all', 'none'])
         + grid(n=[4], last=['none', 'given'], equal=[False], select=['head', 'tail', 'middle', 'list']),
         thorough=grid(n=[8], last=['none', 'given'], equal=[False], select=['all', 'none', 'head', 'tail', 'middle', 'list']),
         bounds='2-5 steps (thorough 8), durations in [1/4, 24] h; consecutive selections')
def durations(c, n, last, equal, select):
    stamps, dt = stamps_of(c, n, equal)
    kw = {}
    if last == 'given':
        kw['last_time_step_hours'] = c.real('last', 0.25, 48)
        dt = dt + [kw['last_time_step_hours']]
    else:
        dt = dt + [dt[-1]]
    fs = fx.FlowSystem(stamps, **kw)
    costs = fx.Effect('costs', '€', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs)
    idx = {'none': None, 'all': range(n), 'head': range(0, 2), 'tail': range(2, n), 'middle': range(1, 3), 'list': [1, 2, 3], 'last': [n - 1]}[select]
    js = list(idx) if idx is not None else list(range(n))
    unit(c, fs, open_bus('b'), 'source', dict(size=10, effects_per_flow_hour={costs: 1}), 'u')
    m = c.model(fs, time_indices=idx)
    sm = m.calc.system_model
    want = [dt[j] for j in js]
    got = list(sm.dt_in_hours)
    c.holds('as many durations as steps', len(got) == len(js) and sm.nr_of_time_steps == len(js))
    if len(got) == len(js):
        for i, j in enumerate(js):
            c.holds(f'duration of step {i}', got[i] == want[i])
    c.holds('the total is the sum', sm.dt_in_hours_total == total(want))
    time = list(m.results['Time'])
    c.holds('one time stamp more than steps', len(time) == len(js) + 1)
    if len(time) == len(js) + 1:
        for i, j in enumerate(js):
            c.holds(f'reported stamp {i} is the given one', hours(c, stamps[j], time[i]) == 0)
        for i in range(len(js)):
            c.holds(f'reported stamps {i} and {i + 1} are the duration apart', hours(c, time[i], time[i + 1]) == want[i])
    rep = list(m.results['Time intervals in hours'])
    c.holds('durations reported', len(rep) == len(js))
    for i in range(min(len(rep), len(js))):
        c.holds(f'reported duration {i}', rep[i] == want[i])
    r = rate(m, 'u', 'f')
    hrs = m.comp('u', 'f', 'sumFlowHours')
    c.sound(m, 'flow hours use these durations', hrs == dot(r, want))


@harness('C19', quick=grid(prev=['none', 'scalar', 'array'], n=[2, 3]), bounds='2-3 steps')
def before(c, prev, n):
    stamps, dt = stamps_of(c, n, False)
    p = None if prev == 'none' else c.real('p', 0.25, 24) if prev == 'scalar' else c.arr('p', 3, 0.25, 24)
    fs = fx.FlowSystem(stamps, previous_dt_in_hours=p)
    got = fs.previous_dt_in_hours
    if prev == 'none':
        c.holds('the steps before are as long as the first', got == dt[0])
    elif prev == 'scalar':
        c.holds('as given', got == p)
    else:
        c.holds('as given', conj(*(a == b for a, b in zip(got, p, strict=True))))


@harness('C19', quick=grid(n=[3, 4], at=[0, 1, 2]), bounds='3-4 steps, one of them backwards')
def backwards(c, n, at):
    if at >= n - 1:
        at = n - 2
    dt = [c.real(f'dt{i}', 0.25, 24) for i in range(n - 1)]
    dt[at] = c.real('back', -24, -0.25)
    c.holds('time stamps going backwards are refused', c.raises(lambda: fx.FlowSystem(c.stamps(dt + [1]))))
