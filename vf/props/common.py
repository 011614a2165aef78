"""Building blocks shared by the harnesses."""
from fractions import Fraction

import flixOpt as fx

from .. import sym
from ..sym import conj, disj, iff, implies, ite, neg, smax, smin  # noqa: F401

BIG = 10**7  # documented default size
EPS = Fraction(1, 10**5)  # documented threshold below which a flow counts as off


def system(c, n=2, equal=False, effects=(), **k):
    """an empty flow system on a free time axis plus a standard cost effect"""
    ts, dt = c.time(n, equal=equal)
    if not equal and 'last_time_step_hours' not in k:  # the last step has a length of its own
        k['last_time_step_hours'] = last = c.real('dtend', Fraction(1, 4), 24)
        c.assume(last != dt[0])
        dt = dt[:-1] + [last]
    fs = fx.FlowSystem(ts, **k)
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    fs.add_effects(costs, *effects)
    return fs, dt, costs


def total(xs):
    xs = list(xs)
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def dot(xs, ys):
    return total(x * y for x, y in zip(xs, ys, strict=True))


def at(x, t):
    """value of a scalar-or-series input at step t"""
    if isinstance(x, (list, tuple)) or getattr(x, 'ndim', 0):
        return x[t]
    return x


def series(c, name, shape, n, lo=None, hi=None, vary=True):
    """an input given as a scalar, an array or an array wrapped in TimeSeriesData; returns (argument, values)"""
    if shape == 'scalar':
        x = c.real(name, lo, hi)
        return x, [x] * n
    a = c.arr(name, n, lo, hi, vary)
    vals = [a[t] for t in range(n)]
    return (fx.TimeSeriesData(a) if shape == 'tsd' else a), vals


def open_bus(label='bus'):
    """a bus where anything may be bought or dumped: the flows at it are otherwise free"""
    return fx.Bus(label, excess_penalty_per_flow_hour=1)


def dump(m, *labels, source=True):
    """witness for open buses: the whole net flow goes to (or comes from) the excess"""
    return [(m.v('Buses', b, 'excess_input' if source else 'excess_output'), None) for b in labels]


def zeros(m, *paths):
    out = []
    for p in paths:
        x = m.v(*p)
        out.append((x, [0] * len(x) if isinstance(x, list) else 0))
    return out


def excess(m, label, net_in):
    """witness of an open bus: net_in[t] = sum of inputs - outputs of the other flows"""
    xi, xo = m.v('Buses', label, 'excess_input'), m.v('Buses', label, 'excess_output')
    return [(xi, [smax(-x, 0) for x in net_in]), (xo, [smax(x, 0) for x in net_in])]


def unit(c, fs, bus, side='source', flow_args=None, label='u', **comp_args):
    """a one-flow component; returns the flow's result path"""
    f = fx.Flow('f', bus, **(flow_args or {}))
    if side == 'source':
        comp = fx.Source(label, source=f, **comp_args)
    else:
        comp = fx.Sink(label, sink=f, **comp_args)
    fs.add_components(comp)
    return f, comp


def rate(m, *path):
    return m.comp(*path, 'flow_rate')


def is01(x):
    return disj(x == 0, x == 1)
