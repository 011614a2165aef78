import contextlib
import datetime
import os
import pathlib
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd
from flixOpt import plotting

from .. import sym
from ..files import files
from ..reg import grid, harness
from .c25_tables import expected, solved
from .common import *

"""what is drawn is what the table holds; drawing goes to the real plotly and to a stand-in for the axes of matplotlib"""

START = np.datetime64('2021-03-01T00:00:00', 'ns')
UNEVEN = (0, 60, 90, 240, 300, 330)  # minutes


def stamps(n, minutes=UNEVEN, start=START):
    return pd.DatetimeIndex([start + np.timedelta64(m, 'm') for m in minutes[:n]])


def table(c, n, k, lo=-10, hi=10, signs=None, index=None):
    """a table of k columns of free values; signs: per column the range of its values"""
    at = {'+': (0, hi), '-': (lo, 0), '0': (0, 0), 'p': (1, hi), 'n': (lo, -1), None: (lo, hi), '~': (-2 * EPS, 2 * EPS)}
    vals = {}
    for j in range(k):
        a, b = at[signs[j] if signs else None]
        vals[f'col{j}'] = [c.real(f'v{j}_{i}', a, b) if a != b else 0 for i in range(n)]
    index = stamps(n) if index is None else index
    kind = object if c.is_sym else float
    df = pd.DataFrame({name: pd.Series(list(xs), index=index, dtype=kind) for name, xs in vals.items()}, index=index)
    return df, vals, index


def listed(x):
    return list(np.asarray(x, dtype=object).view(np.ndarray).flat)


def same_times(a, b):
    return list(pd.DatetimeIndex(np.asarray(list(a)))) == list(pd.DatetimeIndex(np.asarray(list(b))))


def unaltered(c, df, vals, index):
    c.holds('the table keeps its columns', list(df.columns) == list(vals))
    c.holds('the table keeps its time stamps', same_times(df.index, index))
    for k, xs in vals.items():
        for i, (a, b) in enumerate(zip(listed(df[k]), xs, strict=True)):
            c.holds(f'the table keeps {k} at {i}', a == b)


COLORS = ['#111111', '#222222', '#333333', '#444444']


def drawn(c, traces, vals, index, mode, colors=None, near=False):
    c.holds('every column is drawn once', sorted(t.name for t in traces) == sorted(vals))
    for t in traces:
        if t.name not in vals:
            continue
        want = vals[t.name]
        c.holds(f'{t.name}: kind', t.type == ('bar' if mode == 'bar' else 'scatter'))
        c.holds(f'{t.name}: time stamps', same_times(t.x, index))
        have = listed(t.y)
        c.holds(f'{t.name}: length', len(have) == len(want))
        for i, (a, b) in enumerate(zip(have, want)):
            c.holds(f'{t.name} at {i}', disj(a == b, conj(a == 0, b < EPS, b > -EPS)) if near else a == b)
        if mode != 'bar':
            c.holds(f'{t.name}: value holds from its time stamp on', t.line.shape == 'hv' and t.mode == 'lines')
        if colors:
            color = t.marker.color if mode == 'bar' else t.line.color
            c.holds(f'{t.name}: color', color == colors[list(vals).index(t.name)])
        if mode == 'area':
            pos, neg_ = conj(*[x >= 0 for x in have]), conj(*[x <= 0 for x in have])
            c.holds(f'{t.name}: stacked if of one sign', iff(disj(pos, neg_), t.stackgroup is not None))
        elif mode == 'line':
            c.holds(f'{t.name}: not stacked', t.stackgroup is None)
    if mode == 'area':
        groups = {}
        for t in traces:
            if t.stackgroup is not None:
                groups.setdefault(t.stackgroup, []).extend(listed(t.y))
        for g, xs in groups.items():
            c.holds(f'stack {g}: one sign', disj(conj(*[x >= 0 for x in xs]), conj(*[x <= 0 for x in xs])))
        c.holds('at most two stacks', len(groups) <= 2)


@harness('C32', quick=grid(mode=['bar', 'line', 'area'], cols=[1, 2], colors=['list', 'scale'], fig=[False, True]), thorough=grid(mode=['bar', 'line', 'area'], cols=[3], colors=['list'], fig=[True]), bounds='2 steps, 1-2 (3) columns of any sign')
def plotly(c, mode, cols, colors, fig):
    df, vals, index = table(c, 2, cols)
    old = None
    if fig:
        old = plotting.go.Figure()
        old.add_trace(plotting.go.Scatter(x=[1, 2], y=[3, 4], name='before'))
    f = plotting.with_plotly(df, mode, COLORS[:cols] if colors == 'list' else 'viridis', fig=old)
    traces = list(f.data)
    if fig:
        c.holds('what was drawn before stays', f is old and traces[0].name == 'before' and list(traces[0].y) == [3, 4])
        traces = traces[1:]
    drawn(c, traces, vals, index, mode, COLORS if colors == 'list' else None, near=mode == 'area')
    if mode == 'bar':
        c.holds('bars are stacked by sign', f.layout.barmode == 'relative')
    unaltered(c, df, vals, index)


SIGNS = ['+', '-', '0', '~', 'p', 'n']


THREE = ['ppp', 'nnn', 'pnp', 'npn', 'nnp', 'p0n', '0np']


@harness('C32', quick=[dict(signs=a + b) for a in SIGNS for b in SIGNS] + [dict(signs=x) for x in THREE], bounds='2 steps, 2-3 columns of stated signs, zero and next to zero')
def stacked(c, signs):
    df, vals, index = table(c, 2, len(signs), signs=signs)
    f = plotting.with_plotly(df, 'area', COLORS[: len(signs)])
    drawn(c, list(f.data), vals, index, 'area', COLORS, near=True)
    unaltered(c, df, vals, index)


# ------------------------------------------------------------------------------------ matplotlib
class Axes:
    def __init__(self):
        self.bars, self.lines, self.mesh = [], [], None
        self.ticks = {}
        self.saves, self.shows = [], []

        class Axis:
            def __getattr__(self, name):
                return lambda *a, **k: None

        self.xaxis = self.yaxis = Axis()

    def bar(self, x, height, width=0.8, bottom=None, *, align='center', label=None, color=None, **k):
        xs = list(x)
        b = [0] * len(xs) if bottom is None else listed(bottom)
        self.bars.append(NS(x=xs, y=listed(height), width=width, bottom=b, label=label, color=color))

    def step(self, x, y, *a, where='pre', label=None, color=None, **k):
        self.lines.append(NS(x=list(x), y=listed(y), where=where, label=label, color=color))

    def plot(self, x, y, *a, drawstyle='default', label=None, color=None, **k):
        self.step(x, y, where=drawstyle.replace('steps-', ''), label=label, color=color)

    def pcolormesh(self, *a, **k):
        self.mesh = a[-1]

    def imshow(self, a, **k):
        self.mesh = a

    def set_xticks(self, ticks, labels=None, **k):
        if labels is not None:
            self.ticks['x'] = list(labels)

    def set_yticks(self, ticks, labels=None, **k):
        if labels is not None:
            self.ticks['y'] = list(labels)

    def set_xticklabels(self, labels, **k):
        self.ticks['x'] = list(labels)

    def set_yticklabels(self, labels, **k):
        self.ticks['y'] = list(labels)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Fig:
    def __init__(self, ax=None):
        self.ax = ax or Axes()

    def savefig(self, path, *a, **k):
        self.ax.saves.append(path)

    def show(self, *a, **k):
        self.ax.shows.append(None)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


@contextlib.contextmanager
def axes():
    """the axes that a new figure of matplotlib gets"""
    ax, real = Axes(), plotting.plt

    class Plt:
        def __getattr__(self, name):
            return getattr(real, name)

        def subplots(self, *a, **k):
            return Fig(ax), ax

        def show(self, *a, **k):
            ax.shows.append(None)

        def savefig(self, path, *a, **k):
            ax.saves.append(path)


        class cm:
            ScalarMappable = staticmethod(lambda *a, **k: NS(args=k))

        Normalize = staticmethod(lambda vmin=None, vmax=None, **k: ax.ticks.update(lo=vmin, hi=vmax))

    plotting.plt = Plt()
    try:
        yield ax
    finally:
        plotting.plt = real


def painted(c, ax, vals, index, mode, colors):
    names, n = list(vals), len(index)
    if mode == 'line':
        c.holds('every column is drawn once', [x.label for x in ax.lines] == names and not ax.bars)
        for x, name, color in zip(ax.lines, names, colors):
            c.holds(f'{name}: time stamps', same_times(x.x, index))
            c.holds(f'{name}: value holds from its time stamp on', x.where == 'post')
            c.holds(f'{name}: color', color is None or x.color == color)
            c.holds(f'{name}: length', len(x.y) == n)
            for i, (a, b) in enumerate(zip(x.y, vals[name])):
                c.holds(f'{name} at {i}', a == b)
        return
    c.holds('every column has a label', sorted(x.label for x in ax.bars if x.label and not x.label.startswith('_')) == sorted(names) and not ax.lines)
    steps = [b - a for a, b in zip(index[:-1], index[1:])]
    for x in ax.bars:
        c.holds('bars: time stamps', same_times(x.x, index))
        c.holds('bars: length', len(x.y) == len(x.bottom) == n)
        c.holds('bars: no wider than a step', x.width == min(steps))
    known = {col: name for name, col in zip(names, colors)}
    of = {name: [x for x in ax.bars if known.get(x.color, x.label) == name] for name in names}
    for i in range(n):
        top = bottom = 0
        for name in names:
            v = vals[name][i]
            pieces = of[name]
            c.holds(f'{name} at {i}: the bars sum up to the value', total([x.y[i] for x in pieces]) == v)
            # each piece that has a height starts where the stack of its sign ends, and the stack grows by it
            for x in pieces:
                c.holds(f'{name} at {i}: stacked on the others', disj(x.y[i] == 0, x.bottom[i] == sym.ite(x.y[i] > 0, top, bottom) if c.is_sym else abs(x.bottom[i] - (top if x.y[i] > 0 else bottom)) < 1e-9))
                c.holds(f'{name} at {i}: of the sign of the value', x.y[i] * v >= 0)
            top, bottom = top + c.ite(v > 0, v, 0), bottom + c.ite(v < 0, v, 0)


@harness('C32', quick=grid(mode=['bar', 'line'], cols=[1, 2], n=[2], own=[False, True]) + grid(mode=['bar', 'line'], cols=[1], n=[3], own=[False, True]), thorough=grid(mode=['bar'], cols=[3], n=[2], own=[True]) + grid(mode=['bar'], cols=[2], n=[3], own=[True]), bounds='2-3 steps, 1-2 (3) columns of any sign', max_paths=800)
def matplotlib(c, mode, cols, n, own):
    df, vals, index = table(c, n, cols)
    colors = COLORS[:cols]
    if own:
        ax = Axes()
        r = plotting.with_matplotlib(df, mode, colors, fig=Fig(), ax=ax)
    else:
        with axes() as ax:
            r = plotting.with_matplotlib(df, mode, colors)
    c.holds('the axes are returned', r[1] is ax)
    painted(c, ax, vals, index, mode, colors)
    unaltered(c, df, vals, index)


@harness('C32', quick=[dict(signs=x, n=n) for x in THREE for n in (2, 3)], bounds='2-3 steps, 3 columns of stated signs')
def bars(c, signs, n):
    df, vals, index = table(c, n, 3, signs=signs)
    ax = Axes()
    plotting.with_matplotlib(df, 'bar', COLORS[:3], fig=Fig(), ax=ax)
    painted(c, ax, vals, index, 'bar', COLORS[:3])
    unaltered(c, df, vals, index)


# -------------------------------------------------------------------------------------- heat maps
PERIODS = {
    ('D', 'h'): ('%Y-%m-%d', '%H'),
    ('h', '15min'): ('%Y-%m-%d %H', '%M'),
    ('h', 'min'): ('%Y-%m-%d %H', '%M'),
    ('D', '15min'): ('%Y-%m-%d', '%H:%M'),
    ('MS', 'D'): ('%Y-%m', '%d'),
    ('MS', 'h'): ('%Y-%m', '%d %H'),
    ('YS', 'D'): ('%Y', '%j'),
    ('YS', 'h'): ('%Y', '%j %H'),
    ('W', 'D'): ('%G-%V', '%u'),
    ('W', 'h'): ('%G-%V', '%u %H'),
}
STEP = {'min': 1, '15min': 15, 'h': 60, 'D': 1440}


def cells(df_index, values, periods, steps, fill, c):
    """(period, step) -> value, in the order of time; None where there is nothing"""
    w = STEP[steps]
    slot = lambda t: int((t - pd.Timestamp('2000-01-01')).total_seconds() // 60 // w)  # noqa: E731
    held = {}
    for t, v in sorted(zip(df_index, values), key=lambda p: p[0]):
        held.setdefault(slot(t), []).append(v)
    order = list(range(min(held), max(held) + 1))
    val = {s: total(held[s]) * Fraction(1, len(held[s])) if s in held else None for s in order}
    if fill:
        last = None
        for s in order if fill == 'ffill' else reversed(order):
            last = val[s] = val[s] if val[s] is not None else last
    out = {}
    for s in order:
        t = pd.Timestamp('2000-01-01') + pd.Timedelta(minutes=w * s)
        key = tuple(t.strftime(f) for f in PERIODS[periods, steps])
        assert key not in out
        out[key] = val[s]
    return out


def missing(x):
    return x is None or isinstance(x, float) and x != x


@contextlib.contextmanager
def averages(c):
    """pandas turns the sum of objects into a float before it divides; here it stays what it is"""
    from pandas.core import nanops

    old = nanops._ensure_numeric
    nanops._ensure_numeric = lambda x: x if isinstance(x, sym.Sym) or getattr(x, 'dtype', None) == object else old(x)
    try:
        yield
    finally:
        nanops._ensure_numeric = old


def compare_map(c, hm, want):
    cols = sorted({p for p, s in want})
    rows = sorted({s for p, s in want})
    c.holds('as many periods as there are', len(hm.columns) == len(cols))
    c.holds('as many steps as there are', len(hm.index) == len(rows))
    z = hm.values
    for j, p in enumerate(cols):
        for i, s in enumerate(rows):
            if z.shape != (len(rows), len(cols)):
                return
            w = want.get((p, s))
            if w is None:
                c.holds(f'cell {p} {s}: empty', missing(z[i, j]))
            else:
                c.holds(f'cell {p} {s}: filled', not missing(z[i, j]))
                if not missing(z[i, j]):
                    c.holds(f'cell {p} {s}', z[i, j] == w if c.is_sym else abs(z[i, j] - float(w)) < 1e-6)


SPANS = {  # minutes after the start
    'hours': (0, 60, 120, 180),
    'quarters': (0, 15, 45, 60, 90, 135),
    'night': (22 * 60, 23 * 60, 24 * 60, 25 * 60, 46 * 60),
    'days': (0, 1440, 2 * 1440, 31 * 1440),
    'week': (4 * 1440, 5 * 1440, 6 * 1440, 7 * 1440),
    'sunday': (5 * 1440 + 23 * 60, 6 * 1440, 6 * 1440 + 60, 7 * 1440 + 120),
    'unsorted': (120, 0, 45, 90, 1440),
    'year': (-60 * 1440, -59 * 1440, 0, 60),
}
MAPS = [dict(periods=p, steps=s, span=x) for (p, s), xs in {('D', 'h'): ('hours', 'quarters', 'night', 'unsorted'), ('h', '15min'): ('quarters', 'hours', 'unsorted'), ('h', 'min'): ('quarters',), ('D', '15min'): ('quarters', 'night'),
        ('MS', 'D'): ('days', 'week'), ('MS', 'h'): ('night',), ('YS', 'D'): ('days', 'year'), ('YS', 'h'): ('night', 'hours'), ('W', 'D'): ('week', 'days', 'sunday'), ('W', 'h'): ('night', 'sunday', 'unsorted')}.items() for x in xs]


@harness('C32', quick=[dict(d, fill=f) for d in MAPS for f in (None, 'ffill', 'bfill')], bounds='4-6 steps, even and uneven, across days, weeks, months and years')
def heat_map(c, periods, steps, span, fill):
    index = stamps(99, SPANS[span])
    df, vals, index = table(c, len(index), 1, index=index)
    with averages(c):
        hm = plotting.heat_map_data_from_df(df, periods, steps, fill)
    compare_map(c, hm, cells(index, vals['col0'], periods, steps, fill, c))
    unaltered(c, df, vals, index)


@harness('C32', quick=grid(engine=['plotly', 'matplotlib'], rows=[1, 2], cols=[1, 2]), bounds='maps of up to 2 x 2 free values')
def heat_map_drawn(c, engine, rows, cols):
    xs = [[c.real(f'z{i}{j}', -10, 10) for j in range(cols)] for i in range(rows)]
    df = pd.DataFrame(np.array(xs, dtype=object if c.is_sym else float), index=[f's{i}' for i in range(rows)], columns=[f'p{j}' for j in range(cols)])
    flat = [x for r in xs for x in r]
    if engine == 'plotly':
        seen = []
        real = plotting.go

        class Go:
            class Heatmap(NS):
                pass

            class Figure:
                def __init__(self, data=None, **k):
                    seen.extend(data if isinstance(data, (list, tuple)) else [data])

                def add_trace(self, t):
                    seen.append(t)

                def __getattr__(self, name):
                    return lambda *a, **k: None

        plotting.go = Go
        try:
            plotting.heat_map_plotly(df)
        finally:
            plotting.go = real
        seen = [t for t in seen if t is not None]
        c.holds('one map', len(seen) == 1)
        t = seen[0]
        x, y, z, lo, hi = list(t.x), list(t.y), t.z, t.zmin, t.zmax
    else:
        with axes() as ax:
            plotting.heat_map_matplotlib(df)
        x, y, z, lo, hi = ax.ticks.get('x'), ax.ticks.get('y'), ax.mesh, ax.ticks.get('lo'), ax.ticks.get('hi')
        c.holds('scale', lo is not None and hi is not None)
    c.holds('periods', x == list(df.columns))
    c.holds('steps', y == list(df.index))
    z = np.asarray(z, dtype=object)
    c.holds('size of the map', z.shape == (rows, cols))
    for i in range(rows):
        for j in range(cols):
            c.holds(f'cell {i} {j}', z[i, j] == xs[i][j])
    c.holds('scale starts at the lowest', conj(*[lo <= v for v in flat], disj(*[lo == v for v in flat])))
    c.holds('scale ends at the highest', conj(*[hi >= v for v in flat], disj(*[hi == v for v in flat])))


@harness(
    'C32',
    quick=grid(what=['line', 'area', 'heat'], how=['plotly'], kind=['str', 'path'])
    + grid(what=['line', 'bar', 'heat'], how=['matplotlib'], kind=['none', 'str', 'path']),
    bounds='shown or not, saved or not; paths given as text and as pathlib.Path',
)
def shown_and_saved(c, what, how, kind):
    """a figure is shown where that is asked for, and written to the path given where that is asked for"""
    import plotly
    from plotly import io as pio

    show, save = c.flag('show') == 1, c.flag('save') == 1
    x = c.real('x', 1, 10)
    df = pd.DataFrame({'a': [x, x], 'b': [x, x]}, index=pd.date_range('2020-01-01', periods=2, freq='h') if what != 'heat' else [0, 1])
    shows, saves = [], []
    path = dict(none=None, str='plots/of it.html', path=pathlib.Path('plots/of it.html'))[kind]
    if how == 'plotly':
        def page(figure_or_data, filename='temp-plot.html', auto_open=True, **k):
            saves.append(filename)
            if auto_open:
                shows.append(filename)

        def write(self, file, *a, auto_open=False, **k):
            page(self, file, auto_open)

        stubs = [
            (plotly.offline, 'plot', page),
            (plotly.offline.offline, 'plot', page),
            (pio, 'write_html', write),
            (pio, 'show', lambda *a, **k: shows.append(None)),
            (plotting.go.Figure, 'write_html', write),
            (plotting.go.Figure, 'show', lambda *a, **k: shows.append(None)),
        ]
        real = [getattr(o, n) for o, n, _ in stubs]
        for o, n, f in stubs:
            setattr(o, n, f)
        try:
            if what == 'heat':
                plotting.heat_map_plotly(df, show=show, save=save, path=path)
            else:
                plotting.with_plotly(df, what, COLORS[:2], show=show, save=save, path=path)
        finally:
            for (o, n, _), f in zip(stubs, real):
                setattr(o, n, f)
        asked = disj(show, save)
    else:
        with axes() as ax:
            ax.saves, ax.shows = saves, shows
            f = (lambda: plotting.heat_map_matplotlib(df, show=show, path=path)) if what == 'heat' else (lambda: plotting.with_matplotlib(df, what, COLORS[:2], show=show, path=path))
            f()
        asked = path is not None
    c.holds('shown when asked for', iff(show, len(shows) == 1))
    c.holds('not shown otherwise', iff(neg(show), not shows))
    c.holds('saved when asked for', iff(asked, len(saves) == 1))
    c.holds('not saved otherwise', iff(neg(asked), not saves))
    c.holds('saved at the path', all(pathlib.Path(y) == pathlib.Path(path) for y in saves))


@harness('C32', quick=grid(n=[1, 2, 3, 4, 5, 6], k=[1, 2, 3, 4]), bounds='up to 6 values in columns of up to 4')
def reshaped(c, n, k):
    xs = [c.real(f'x{i}', -10, 10) for i in range(n)]
    z = plotting.reshape_to_2d(c.pack(xs), k)
    cols = -(-n // k)
    c.holds('size', z.shape == (k, cols))
    for j in range(cols):
        for i in range(k):
            at = j * k + i
            if at < n:
                c.holds(f'value {at}', z[i, j] == xs[at])
            else:
                c.holds(f'nothing at {i} {j}', missing(z[i, j]))


# ----------------------------------------------------------------------------------------- results
@harness('C32', quick=grid(kind=['storage', 'converter'], mode=['bar', 'line', 'area'], engine=['plotly', 'matplotlib'], invert=[True, False]), bounds='2 steps')
def operation(c, kind, mode, engine, invert):
    if mode == 'area' and engine == 'matplotlib':
        return c.holds('not offered', True)
    with files(c) as d:
        fs, want, res = solved(c, kind, d, n=2, lo=1, hi=50)
    k = 1 if invert else -1
    vals = {name: xs + [xs[-1]] for name, xs in expected(fs, want, 'u0', k, -k).items()}
    index = fs.time_series_with_end
    if engine == 'matplotlib':
        with axes() as ax:
            r = res.plot_operation('u0', mode, engine=engine, colors=COLORS[: len(vals)], invert=invert, show=False)
        c.holds('the axes are returned', r[1] is ax)
        painted(c, ax, vals, index, mode, COLORS)
    else:
        f = res.plot_operation('u0', mode, engine=engine, colors=COLORS[: len(vals)], invert=invert, show=False)
        drawn(c, list(f.data), vals, index, mode, COLORS)


@harness('C32', quick=grid(engine=['plotly', 'matplotlib'], periods=['D', 'h'], invert=[True, False]), bounds='3 steps, the heat map of a flow')
def heat_map_of_flow(c, engine, periods, invert):
    steps = {'D': 'h', 'h': '15min'}[periods]
    with files(c) as d:
        fs, want, res = solved(c, 'storage', d, n=3, lo=1, hi=50)
    f = fs.components['u0'].outputs[0]
    xs = list(want['Components']['u0'][f.label]['flow_rate'])
    seen = []
    old = {k: getattr(plotting, k) for k in ('heat_map_plotly', 'heat_map_matplotlib')}
    for k in old:
        setattr(plotting, k, lambda data, k=k, **opts: seen.append((k, data)))
    try:
        with averages(c):
            res.plot_operation(f'u0__{f.label}', 'heatmap', heatmap_periods=periods, heatmap_steps_per_period=steps, engine=engine, invert=invert, show=False)
    finally:
        for k, x in old.items():
            setattr(plotting, k, x)
    c.holds('drawn once', [k for k, _ in seen] == [f'heat_map_{engine}'])
    compare_map(c, seen[0][1], cells(pd.DatetimeIndex(fs.time_series_with_end), xs + [xs[-1]], periods, steps, 'ffill', c))


@harness('C32', quick=grid(cols=[1, 2], colormap=['viridis', 'list']), bounds='2 steps of 1-2 series')
def aggregated(c, cols, colormap):
    from flixOpt.aggregation import Aggregation

    df, vals, index = table(c, 2, cols)
    agg = Aggregation(df, 1, 2, 1)
    new = {k: [c.real(f'a{k}{i}', -10, 10) for i in range(2)] for k in vals}
    agg.aggregated_data = pd.DataFrame({k: pd.Series(x, index=index, dtype=object if c.is_sym else float) for k, x in new.items()}, index=index)
    f = agg.plot(COLORS[:cols] if colormap == 'list' else colormap, show=False)
    both = {f'Original - {k}': x for k, x in vals.items()} | {f'Aggregated - {k}': x for k, x in new.items()}
    drawn(c, list(f.data), both, index, 'line')
    c.holds('original series are dashed', all((t.line.dash == 'dash') == t.name.startswith('Original') for t in f.data))
    for k, x in new.items():
        c.holds('the aggregated series stay', all(bool(a == b) for a, b in zip(listed(agg.aggregated_data[k]), x)))


@harness('C32', quick=grid(kind=['converter', 'storage', 'line', 'sinks', 'onoff'], of=['system', 'results']), bounds='the network of five systems')
def network(c, kind, of):
    with files(c) as d:
        fs, want, res = solved(c, kind, d, n=2)
    net = (fs if of == 'system' else res).visualize_network(path=False, show=False)
    labels = {x.label: 'Component' for x in fs.components.values()} | {x.label: 'Bus' for x in fs.buses.values()}
    c.holds('a node for each component and bus', sorted(x['label'] for x in net.nodes) == sorted(labels))
    c.holds('buses look different', len({(labels[x['label']], x['shape']) for x in net.nodes}) == len({x['shape'] for x in net.nodes}) == len(set(labels.values())))
    name = {x['id']: x['label'] for x in net.nodes}
    have = sorted((name[e['from']], name[e['to']]) for e in net.edges)
    c.holds('an edge for each flow, in its direction', have == sorted((f.bus.label, f.comp.label) if f in f.comp.inputs else (f.comp.label, f.bus.label) for f in fs.flows.values()))
    c.holds('edges point somewhere', all(e.get('arrows') for e in net.edges))
