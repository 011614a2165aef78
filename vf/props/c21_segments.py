from contextlib import contextmanager

import numpy as np

from ..core import Given, build_num, build_sym
from ..reg import grid, harness
from .common import *


@contextmanager
def watched(c, found):
    """collects the models handed to the solver, before it returns its (free) values"""
    from flixOpt.math_modeling import MathModel

    plain = MathModel.solve

    def solve(self, solver):
        if isinstance(solver, Given) and not isinstance(solver, Once):
            class Holder:
                system_model = self

            MathModel.solve = plain
            try:
                m = build_sym(Holder) if c.is_sym else build_num(Holder, c.serial)
            finally:
                MathModel.solve = solve
            c.serial += 1
            c.models.append(m)
            found.append(m)
        return plain(self, solver)

    MathModel.solve = solve
    try:
        yield
    finally:
        MathModel.solve = plain


class Once(Given):
    pass


LENGTHS = [(6, 3, 0), (6, 3, 1), (5, 3, 2), (7, 4, 2), (8, 3, 2), (8, 3, 4), (9, 3, 3)]


def build(c, kind, dt, js, start, tail=None):
    """the part js of a system; start: start values (None: those of the user)"""
    n = len(dt)
    own = c.stamps([dt[j] for j in js])
    fs = fx.FlowSystem(own, last_time_step_hours=dt[js[-1]], previous_dt_in_hours=c.real('pdt', 0.25, 24))
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs)
    bus = fx.Bus('b', excess_penalty_per_flow_hour=2)

    def arr(name, lo, hi):
        a = [c.real(f'{name}{j}', lo, hi) for j in range(n)]
        for x, y in zip(a, a[1:]):
            c.assume(x != y)
        return c.pack([a[j] for j in js])

    start = start or {}
    if kind == 'flow':
        on = fx.OnOffParameters(effects_per_switch_on=c.real('sw', 1, 5), consecutive_on_hours_min=c.real('cmin', 0.1, 5), force_switch_on=False)
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, relative_minimum=arr('lo', 0.1, 0.5), on_off_parameters=on,
                                                      previous_flow_rate=start.get('u', c.real('p', 0, 5)))))
    elif kind == 'no history':
        on = fx.OnOffParameters(effects_per_switch_on=c.real('sw', 1, 5))
        fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=10, relative_minimum=arr('lo', 0.1, 0.5), on_off_parameters=on, previous_flow_rate=start.get('u'))))
    elif kind == 'component':
        a, b = fx.Flow('a', bus, size=10, previous_flow_rate=start.get('a', c.real('pa', 0, 5))), fx.Flow('q', fx.Bus('b2', excess_penalty_per_flow_hour=1), size=10, previous_flow_rate=start.get('q', c.real('pq', 0, 5)))
        fs.add_elements(fx.LinearConverter('u', inputs=[a], outputs=[b], conversion_factors=[{a: arr('ca', 0.5, 5), b: 1}],
                                           on_off_parameters=fx.OnOffParameters(effects_per_switch_on=c.real('sw', 1, 5))))
    else:
        q0 = start.get('u', {'storage': lambda: c.real('q0', 10, 20), 'storage free': lambda: None, 'storage cyclic': lambda: 'lastValueOfSim'}[kind]())
        fs.add_elements(fx.Storage('u', charging=fx.Flow('ch', bus, size=10), discharging=fx.Flow('dis', bus, size=10), capacity_in_flow_hours=50, initial_charge_state=q0,
                                   minimal_final_charge_state=c.real('qe', 0, 10), eta_charge=arr('ec', 0.5, 1), relative_loss_per_hour=c.real('loss', 0, 0.02), prevent_simultaneous_charge_and_discharge=False))
    return fs


PREV = {'flow': {'u': ('u', 'f', 'flow_rate')}, 'no history': {'u': ('u', 'f', 'flow_rate')}, 'component': {'a': ('u', 'a', 'flow_rate'), 'q': ('u', 'q', 'flow_rate')},
        'storage': {'u': ('u', 'charge_state')}, 'storage free': {'u': ('u', 'charge_state')}, 'storage cyclic': {'u': ('u', 'charge_state')}}
KINDS = list(PREV)


def dig(d, path):
    for k in path:
        d = d[k]
    return d


def steps(total, seg, over):
    return [list(range(s, min(s + seg + over, total))) for s in range(0, total, seg)]


def run(c, kind, sizes, sel=None):
    n, seg, over = sizes
    dt = [c.real(f'dt{i}', 0.25, 24) for i in range(n)]
    for a, b in zip(dt, dt[1:]):
        c.assume(a != b)
    fs = build(c, kind, dt, range(n), None)
    models = []
    calc = fx.SegmentedCalculation('seg', fs, segment_length=seg, overlap_length=over, time_indices=sel)
    before = starts(fs)
    with watched(c, models):
        calc.do_modeling_and_solve(Given(c, lo=0, hi=9), save_results=False)
    return fs, dt, models, calc, before


def starts(fs):
    out = {}
    for x in fs.components.values():
        if hasattr(x, 'initial_charge_state'):
            out[x.label] = x.initial_charge_state
        for f in x.inputs + x.outputs:
            out[x.label, f.label] = f.previous_flow_rate
    return out


def equal(a, b):
    return a is b or (a == b)


@harness('C21', quick=grid(kind=KINDS, sizes=[(6, 3, 1), (8, 3, 4)]) + grid(kind=['flow', 'storage'], sizes=[s for s in LENGTHS if s not in ((6, 3, 1), (8, 3, 4))]),
         thorough=grid(kind=KINDS, sizes=LENGTHS + [(9, 4, 4), (12, 3, 5)]), bounds='5-9 steps (thorough 12) in 2-3 (4) segments of 3-4 steps, overlap 0-5, all results of the solver')
def handover(c, kind, sizes):
    fs, dt, models, calc, before = run(c, kind, sizes)
    n, seg, over = sizes
    want = steps(n, seg, over)
    c.holds('number of segments', len(models) == len(want) and len(calc.sub_calculations) == len(want))
    if len(models) != len(want):
        return
    single = list(calc.results(individual_results=True).values())
    start = None
    for i, (m, js) in enumerate(zip(models, want, strict=True)):
        if i:
            start = {k: dig(single[i - 1]['Components'], p)[seg if p[-1] == 'charge_state' else seg - 1] for k, p in PREV[kind].items()}
        own = c.model(build(c, kind, dt, js, start))
        c.same(m, own, f'segment {i + 1} is the system of its steps with the state handed over')
    after = starts(fs)
    c.holds('original start values restored', conj(*(equal(after[k], before[k]) for k in before)))


@harness('C21', quick=grid(kind=['flow', 'storage'], sizes=LENGTHS), thorough=grid(kind=KINDS, sizes=LENGTHS + [(9, 4, 4), (12, 3, 5)]), bounds='as handover; combined results of every step')
def combined(c, kind, sizes):
    fs, dt, models, calc, before = run(c, kind, sizes)
    n, seg, over = sizes
    single = list(calc.results(individual_results=True).values())
    whole = calc.results(combined_arrays=True)
    arrays = [p for p, a in walk(single[0]) if isinstance(a, np.ndarray) and a.ndim == 1]
    c.holds('there are results', len(arrays) > 3)
    for p in arrays:
        first = dig(single[0], p)
        extra = len(first) - (seg + over)
        try:
            got = dig(whole, p)
        except (KeyError, TypeError):
            c.holds(f'{p} is among the combined results', False)
            continue
        ok = len(got) == n + extra
        c.holds(f'{p} covers the horizon', ok)
        if not ok:
            continue
        for j in range(n + extra):
            i = min(j // seg, len(single) - 1)
            x = dig(single[i], p)[j - i * seg]
            c.holds(f'{p} at {j}', got[j].t == x.t if hasattr(x, 't') else got[j] == x)
    time = dig(whole, ('Time',))
    stamps = list(fs.time_series)
    for j in range(n):
        c.holds(f'time stamp {j}', time[j].t == stamps[j].t if hasattr(stamps[j], 't') else time[j] == stamps[j])
    hrs = dig(whole, ('Time intervals in hours',))
    for j in range(n):
        c.holds(f'duration {j}', hrs[j] == dt[j])


def walk(d, p=()):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from walk(v, p + (k,))
    else:
        yield p, d


@harness('C21', quick=grid(kind=['flow', 'storage'], sel=['head', 'tail', 'middle', 'list']), bounds='8 steps, selections of 6')
def selection(c, kind, sel):
    sel = {'head': range(0, 6), 'tail': range(2, 8), 'middle': range(1, 7), 'list': [1, 2, 3, 4, 5, 6]}[sel]
    fs, dt, models, calc, before = run(c, kind, (8, 3, 1), sel)
    c.holds('number of segments', len(models) == 2)
    single = list(calc.results(individual_results=True).values())
    start = None
    for i, js in enumerate([list(sel)[0:4], list(sel)[3:6]]):
        if i:
            start = {k: dig(single[0]['Components'], p)[3 if p[-1] == 'charge_state' else 2] for k, p in PREV[kind].items()}
        c.same(models[i], c.model(build(c, kind, dt, js, start)), f'segment {i + 1} covers its part of the selection')


@harness('C21', quick=grid(kind=['flow', 'storage'], sel=[[0, 1, 3, 4, 5, 6, 7, 8], [0, 2, 4, 6, 7, 8]]), bounds='9 steps, selections of 6-8 with gaps')
def gaps(c, kind, sel):
    """each segment is a calculation of its part of the chosen steps"""
    fs, dt, models, calc, before = run(c, kind, (9, 3, 1), sel)
    parts = [[sel[j] for j in js] for js in steps(len(sel), 3, 1)]
    c.holds('number of segments', len(models) == len(parts))
    single = list(calc.results(individual_results=True).values())
    start = None
    for i, (m, js) in enumerate(zip(models, parts, strict=True)):
        if i:
            start = {k: dig(single[i - 1]['Components'], p)[3 if p[-1] == 'charge_state' else 2] for k, p in PREV[kind].items()}
        c.same(m, c.model(build(c, kind, dt, range(9), start), time_indices=js), f'segment {i + 1} covers its part of the selection')


class Failed(Exception):
    pass


@harness('C21', quick=grid(kind=['flow', 'storage'], at=[0, 1]), bounds='6 steps; the solver fails in the first or second segment')
def failure(c, kind, at):
    n, seg, over = 6, 3, 1
    dt = [c.real(f'dt{i}', 0.25, 24) for i in range(n)]
    for a, b in zip(dt, dt[1:]):
        c.assume(a != b)
    fs = build(c, kind, dt, range(n), None)
    before = starts(fs)

    class Fails(Given):
        def solve(self, ml):
            if self.calls == at:
                raise Failed
            super().solve(ml)

    calc = fx.SegmentedCalculation('seg', fs, segment_length=seg, overlap_length=over)
    c.holds('the failure is reported', c.raises(lambda: calc.do_modeling_and_solve(Fails(c, lo=0, hi=9), save_results=False), Failed))
    after = starts(fs)
    c.holds('original start values restored', conj(*(equal(after[k], before[k]) for k in before)))


@harness('C21', quick=grid(kind=['flow', 'storage'], sizes=[(4, 3, 1), (7, 3, 1)]), bounds='a last segment of a single step')
def single_step(c, kind, sizes):
    what = 'a last segment of one step is calculated and part of the combined results'
    try:
        fs, dt, models, calc, before = run(c, kind, sizes)
    except (AssertionError, AttributeError):
        c.holds(what, False)
        return
    c.holds('number of segments', len(models) == len(steps(*sizes)))
    res = calc.results(combined_arrays=True)
    try:
        got = dig(res, ('Components', 'u', 'f' if kind == 'flow' else 'ch', 'flow_rate'))
    except KeyError:
        got = []
    c.holds(what, len(got) == sizes[0])
