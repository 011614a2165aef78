import numpy as np
from flixOpt import plotting
from flixOpt.results import CalculationResults

from ..core import Given
from ..files import files
from ..reg import grid, harness
from .c24_files import flat
from .c24_files import system as timed
from .common import *

N = 3
DEFAULT = dict(input_factor=-1, output_factor=1)


def solved(c, kind, d, n=N, lo=-50, hi=100, time_indices=None, ranges=()):
    fs = timed(c, kind, 'm', n)
    calc = fx.FullCalculation('calc', fs, time_indices=time_indices)
    calc.do_modeling()
    calc.solve(Given(c, lo=lo, hi=hi, ranges=ranges), save_results=d)
    return fs, calc.results(), CalculationResults('calc', d)


def expected(fs, want, label, input_factor=-1, output_factor=1):
    """columns of the table of a component or bus: name -> values, from the reported results"""
    rate = lambda f: list(want['Components'][f.comp.label][f.label]['flow_rate'])  # noqa: E731
    out = {}
    if label in fs.components:
        e = fs.components[label]
        for flows, k in ((e.inputs, input_factor), (e.outputs, output_factor)):
            for f in flows if k is not None else []:
                out[f'{label}__{f.label}'] = [k * x for x in rate(f)]
    else:
        bus = want['Buses'][label]
        for f in fs.flows.values():
            if f.bus.label == label:
                k = output_factor if f in f.comp.inputs else input_factor
                if k is not None:
                    out[f'{f.comp.label}__{f.label}'] = [k * x for x in rate(f)]
        for name, column, k in (('excess_input', 'Excess Input', input_factor), ('excess_output', 'Excess Output', output_factor)):
            if k is not None and name in bus:
                out[column] = [k * x for x in bus[name]]
    return out


def column(df, name):
    return list(np.asarray(df[name].values, dtype=object).view(np.ndarray))


def compare(c, name, df, cols, stamps, end):
    c.holds(f'{name}: columns', set(df.columns) == set(cols) and len(df.columns) == len(cols))
    c.holds(f'{name}: time stamps', list(np.asarray(df.index.values).astype('datetime64[us]')) == list(np.asarray(stamps).astype('datetime64[us]')))
    for k, vals in cols.items():
        if k in df.columns:
            have = column(df, k)
            want = list(vals) + ([vals[-1]] if end and len(vals) == len(stamps) - 1 else [])
            c.holds(f'{name}: length of {k}', len(have) == len(want))
            for i, (a, b) in enumerate(zip(have, want)):
                c.holds(f'{name}: {k} at {i}', a == b)


@harness('C25', quick=grid(kind=['converter', 'storage', 'line', 'sinks', 'onoff'], end=[True, False]), bounds='3 steps, all components, buses and flows of five systems')
def tables(c, kind, end):
    with files(c) as d:
        fs, want, res = solved(c, kind, d)
    stamps = fs.time_series_with_end if end else fs.time_series
    for label in list(fs.components) + list(fs.buses):
        df = res.to_dataframe(label, threshold=None, with_last_time_step=end)
        compare(c, label, df, expected(fs, want, label), stamps, end)
    for f in fs.flows.values():
        df = res.to_dataframe(f'{f.comp.label}__{f.label}', threshold=None, with_last_time_step=end)
        compare(c, f'flow {f.label}', df, {'flow_rate': list(want['Components'][f.comp.label][f.label]['flow_rate'])}, stamps, end)


@harness('C25', quick=grid(kind=['converter', 'storage', 'sinks'], i=[1, -1, None], o=[1, -1, None]), bounds='3 steps, all choices of the signs')
def signs(c, kind, i, o):
    with files(c) as d:
        fs, want, res = solved(c, kind, d)
    if i is None and o is None:
        return c.holds('nothing requested', True)
    for label in list(fs.components) + list(fs.buses):
        cols = expected(fs, want, label, i, o)
        df = res.to_dataframe(label, input_factor=i, output_factor=o, threshold=None, with_last_time_step=False)
        if not cols:
            c.holds(f'{label}: nothing to show', df.empty)
            continue
        compare(c, label, df, cols, fs.time_series, False)


@harness('C25', quick=grid(kind=['line', 'storage'], of=['component', 'flow', 'bus'], end=[True, False]), bounds='2 steps, columns on either side of the threshold')
def threshold(c, kind, of, end):
    with files(c) as d:
        fs, want, res = solved(c, kind, d, n=2, lo=-50 if (kind, of) == ('storage', 'component') else 0, ranges={'Investment_size': (1, 50), 'i2_flow': (41, 50), 'o2_flow': (0, 0), 'excess_input' if of == 'bus' else 'excess': (1, 50)})
    lim = c.real('limit', 0, 40)
    comp = fs.components['u0']
    f = comp.inputs[0]
    label = {'component': 'u0', 'flow': f'u0__{f.label}', 'bus': f.bus.label}[of]
    extra = dict(input_factor=None) if of == 'bus' else {}
    df = res.to_dataframe(label, threshold=lim, with_last_time_step=end, **extra)
    if of == 'flow':
        cols = {'flow_rate': list(want['Components']['u0'][f.label]['flow_rate'])}
    else:
        cols = expected(fs, want, label, **extra)
    for k, vals in cols.items():
        big = disj(*[disj(x > lim, x < -lim) for x in vals])
        c.holds(f'{k} is shown if a value exceeds the threshold', iff(big, k in df.columns))
    c.holds('no other columns', set(df.columns) <= set(cols))
    shown = {k: v for k, v in cols.items() if k in df.columns}
    if shown:
        compare(c, label, df, shown, fs.time_series_with_end if end else fs.time_series, end)


@harness('C25', quick=grid(kind=['converter', 'storage', 'onoff', 'invest', 'segments'], window=[None, (1, 3)]), bounds='3-4 steps')
def flat_names(c, kind, window):
    with files(c) as d:
        fs, want, res = solved(c, kind, d, n=N if window is None else 4, time_indices=window and range(*window))
    for results, group in ((res.component_results, 'Components'), (res.bus_results, 'Buses'), (res.effect_results, 'Effects')):
        c.holds(f'{group}: all elements', {x.lower() for x in results} == {x.lower() for x in want[group]})
        for label, e in results.items():
            w = {'__'.join(map(str, p)): x for p, x in flat(want[group][label if label in want[group] else label.lower()]).items()}
            g = {'__'.join(map(str, p)): x for p, x in flat(e.variables_flat).items()}
            c.holds(f'{label}: names', set(w) == set(g))
            for k in set(w) & set(g):
                c.holds(f'{label}: {k}', (w[k] is None) == (g[k] is None) and (w[k] is None or w[k] == g[k]))


@harness('C25', quick=grid(kind=['converter', 'storage', 'onoff', 'invest'], group=['Components', 'Buses', 'Effects'], keep=[True, False]), bounds='3 steps, all paths of names there are, and one more')
def extracted(c, kind, group, keep):
    """values picked out of all results by their names"""
    from flixOpt.results import extract_results, extract_single_result

    with files(c) as d:
        fs, want, res = solved(c, kind, d)
    data = res.all_results[group]
    paths = {p for e in want[group].values() if isinstance(e, dict) for p in leaves(e)} | {('not', 'there'), ('OnOff', 'on', 'x'), ('flow_rate',)}
    for path in sorted(paths):
        got = extract_results(data, list(path), keep)
        there = {}
        for label, e in want[group].items():
            there[label] = sub(e, path)
        c.holds(f'{path}: who has it', {k.lower() for k in got} == {k.lower() for k, v in there.items() if keep or v is not None})
        for label, v in there.items():
            one = extract_single_result(data.get(label, {}), list(path))
            c.holds(f'{label} {path}: there or not', (one is None) == (v is None))
            if one is not None and v is not None and not isinstance(v, dict):
                for x in (one, got[label]):
                    for a, b in zip(listed(x), listed(v), strict=True):
                        c.holds(f'{label} {path}', a == b)


def leaves(d, p=()):
    return [q for k, v in d.items() for q in (leaves(v, p + (k,)) if isinstance(v, dict) else [p + (k,)])]


def sub(d, path):
    for k in path:
        d = d.get(k) if isinstance(d, dict) else None
    return d


def listed(x):
    return list(np.asarray(x, dtype=object).view(np.ndarray).flat)


@harness('C25', quick=grid(kind=['storage', 'converter'], invert=[True, False], how=['operation', 'storage']), bounds='2 steps, data handed to the plots')
def plots(c, kind, invert, how):
    if how == 'storage' and kind != 'storage':
        return c.holds('not a storage', True)
    with files(c) as d:
        fs, want, res = solved(c, kind, d, n=2, lo=1, hi=50)
    seen = []

    class Figure:
        def __init__(self):
            self.traces = []

        def add_trace(self, t):
            self.traces.append(t)

        def update_layout(self, **k):
            pass

    class Scatter:
        def __init__(self, x=None, y=None, **k):
            self.x, self.y = list(x), list(y)

    def show(data, *a, **k):
        seen.append(data)
        return Figure()

    from flixOpt import results as module

    old = plotting.with_plotly, module.plotly
    plotting.with_plotly = show

    class Plotly:
        class graph_objs:
            pass

    Plotly.graph_objs.Scatter = Scatter
    module.plotly = Plotly
    try:
        if how == 'operation':
            res.plot_operation('u0', invert=invert, show=False)
        else:
            fig = res.plot_storage('u0', invert=invert, show=False)
    finally:
        plotting.with_plotly, module.plotly = old
    k = 1 if invert else -1
    compare(c, 'plot', seen[0], expected(fs, want, 'u0', k, -k), fs.time_series_with_end, True)
    if how == 'storage':
        q = list(want['Components']['u0']['charge_state'])
        c.holds('charge state: length', len(fig.traces) == 1 and len(fig.traces[0].y) == len(q) == len(fig.traces[0].x))
        for i, (a, b) in enumerate(zip(fig.traces[0].y, q)):
            c.holds(f'charge state at {i}', a == b)
        c.holds('charge state: time stamps', list(fig.traces[0].x) == list(fs.time_series_with_end.astype('datetime64[us]')))
