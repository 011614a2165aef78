import numpy as np
from flixOpt.math_modeling import Equation, Inequation, MathModel, Variable, VariableTS

from ..core import Given
from ..reg import grid, harness
from .common import *

N = 3
# summand kinds: how the variable is used and which rows it gives
SUBSETS = {'range': range(1, 3), 'list': [2, 0], 'tail': [1, 2], 'array': np.array([0, 2]), 'first': range(0, 2), 'one': [1]}


class Calc:
    """what a calculation is to the runner"""

    def __init__(self, mm):
        self.system_model = mm

    def do_modeling(self):
        self.system_model.translate_to_modeling_language()


def factor(c, name, vector, k):
    if not vector:
        f = c.real(name, -100, 100)
        return f, [f] * k
    a = c.arr(name, k, -100, 100)
    return a, [a[i] for i in range(k)]


def term(c, name, kind, vector, x, y, n):
    """returns (arguments for add_summand, rows: list of terms (1 or n))"""
    X = x
    if kind == 'full':
        f, v = factor(c, name, vector, n)
        return ('x', f, {}), lambda X, Y: [v[i] * X[i] for i in range(n)]
    if kind == 'scalar':
        f, v = factor(c, name, vector, n)
        return ('y', f, {}), lambda X, Y: [v[i] * Y for i in range(n)] if vector else [v[0] * Y]
    if kind.startswith('one'):  # a single index, in every row
        f, v = factor(c, name, vector, n)
        j = int(kind[3:])
        return ('x', f, dict(indices_of_variable=j)), lambda X, Y: [v[i] * X[j] for i in range(n)] if vector else [v[0] * X[j]]
    if kind == 'sum':
        f, v = factor(c, name, vector, n)
        return ('x', f, dict(as_sum=True)), lambda X, Y: [total(v[i] * X[i] for i in range(n))]
    if kind == 'sumscalar':
        f, v = factor(c, name, False, 1)
        return ('y', f, dict(as_sum=True)), lambda X, Y: [v[0] * Y]
    sub = SUBSETS[kind.split()[-1]]
    f, v = factor(c, name, vector, len(sub))
    js = [int(j) for j in sub]
    if kind.startswith('sum'):
        return ('x', f, dict(indices_of_variable=sub, as_sum=True)), lambda X, Y: [total(v[i] * X[j] for i, j in enumerate(js))]
    return ('x', f, dict(indices_of_variable=sub)), lambda X, Y: [v[i] * X[j] for i, j in enumerate(js)]


def base(c, n=N):
    mm = MathModel('m')
    x, y = VariableTS('x', n, lower_bound=-100, upper_bound=100), Variable('y', 1, lower_bound=-100, upper_bound=100)
    mm.add(x, y)
    obj = Equation('obj', is_objective=True)
    obj.add_summand(y, 1)
    mm.add(obj)
    return mm, x, y


def box(X, Y, b=100):
    return [conj(v >= -b, v <= b) for v in [*X, Y]]


KINDS = ['full', 'scalar', 'one0', 'one2', 'sum', 'sumscalar', 'sum range', 'sum list', 'sum tail', 'sum array', 'sum first', 'sum one']
PARTIAL = ['sub range', 'sub list', 'sub tail', 'sub array', 'sub first']


@harness('C18', quick=grid(a=KINDS, va=[False, True], b=['full'], vb=[True], eq=[True, False])
         + grid(a=KINDS, va=[False, True], b=['scalar'], vb=[False], eq=[True])
         + grid(a=PARTIAL, va=[False, True], b=['scalar', 'sum list', 'one1'], vb=[False], eq=[True, False]),
         thorough=grid(a=KINDS, va=[False, True], b=['one1', 'sum tail', 'full', 'scalar'], vb=[True], eq=[True, False]),
         bounds='a vector variable of length 3 and a scalar one, two summands, factors in [-100, 100]; all ways to use indices')
def rows(c, a, va, b, vb, eq):
    mm, x, y = base(c)
    n = N
    con = (Equation if eq else Inequation)('con')
    (na, fa, ka), ra = term(c, 'fa', a, va, x, y, n)
    (nb, fb, kb), rb = term(c, 'fb', b, vb, x, y, n)
    con.add_summand(x if na == 'x' else y, fa, **ka)
    con.add_summand(x if nb == 'x' else y, fb, **kb)
    k = c.real('k', -100, 100)
    con.add_constant(k)
    mm.add(con)
    unit_ = [[int(i == j) for i in range(n + 1)] for j in range(n + 1)]
    coef = [(ra(e[:n], e[n]), rb(e[:n], e[n])) for e in unit_]  # coefficients of every variable, per row
    for i in range(max(len(coef[0][0]), len(coef[0][1]))):  # a row without any coefficient is no row
        c.assume(disj(*(z for A, B in coef for q in [A[i if len(A) > 1 else 0] + B[i if len(B) > 1 else 0]] for z in (q >= 0.01, q <= -0.01))))
    m = c.model(None, calc=Calc(mm))
    X, Y = m.results['x'], m.results['y']
    X, Y = [sym.Sym.lift(v) for v in X], sym.Sym.lift(Y)
    A, B = ra(X, Y), rb(X, Y)
    L = max(len(A), len(B))
    spec = box(X, Y)
    for i in range(L):
        lhs = A[i if len(A) > 1 else 0] + B[i if len(B) > 1 else 0]
        s = lhs == k if eq else lhs <= k
        c.sound(m, f'row {i}', s)
        spec.append(s)
    c.complete(m, 'nothing but these rows', conj(*spec), [X, Y])


@harness('C18', quick=grid(consts=['scalar', 'vector', 'none', 'both', 'twice'], eq=[True, False], vec=[True, False]),
         bounds='constants added in up to two parts')
def constants(c, consts, eq, vec):
    mm, x, y = base(c)
    n = N
    con = (Equation if eq else Inequation)('con')
    if vec:
        f, v = factor(c, 'f', True, n)
        con.add_summand(x, f)
    g = 1 if vec else c.real('g', 0.1, 100)
    con.add_summand(y, g)
    k = [0] * n
    for j, kind in enumerate({'scalar': ['s'], 'vector': ['v'], 'none': [], 'both': ['s', 'v'], 'twice': ['v', 'v']}[consts]):
        if kind == 's':
            z = c.real(f'k{j}', -100, 100)
            con.add_constant(z)
            k = [p + z for p in k]
        else:
            z = c.arr(f'k{j}', n, -100, 100)
            con.add_constant(z)
            k = [p + z[i] for i, p in enumerate(k)]
    mm.add(con)
    m = c.model(None, calc=Calc(mm))
    X, Y = [sym.Sym.lift(v) for v in m.results['x']], sym.Sym.lift(m.results['y'])
    rows_ = n if vec or 'v' in consts or consts in ('both', 'twice') else 1
    spec = box(X, Y)
    for i in range(rows_):
        lhs = (v[i] * X[i] + Y) if vec else g * Y
        s = lhs == k[i] if eq else lhs <= k[i]
        c.sound(m, f'row {i}', s)
        spec.append(s)
    c.complete(m, 'nothing but these rows', conj(*spec), [X, Y])


@harness('C18', quick=grid(lo=['none', 'scalar', 'vector', 'inf'], hi=['none', 'scalar', 'vector', 'inf']) + grid(lo=['none'], hi=['none'], fix=['scalar', 'vector', 'bounded'])
         + grid(lo=['none'], hi=['none'], kind=['binary']) + grid(lo=['none'], hi=['none'], kind=['binary'], fix=['pattern']),
         bounds='a vector and a scalar variable')
def variables(c, lo, hi, fix='none', kind='real'):
    n = N
    kw, l, h, fv = {}, None, None, None
    for key, which in (('lower_bound', lo), ('upper_bound', hi)):
        nm = key[0]
        if which == 'scalar':
            kw[key] = c.real(nm, -100, 100)
            v = [kw[key]] * n
        elif which == 'vector':
            kw[key] = c.arr(nm, n, -100, 100)
            v = [kw[key][i] for i in range(n)]
        elif which == 'inf':
            kw[key], v = (-np.inf if nm == 'l' else np.inf), None
        else:
            v = None
        if nm == 'l':
            l = v
        else:
            h = v
    if l and h:
        for i in range(n):
            c.assume(l[i] <= h[i])
    if fix == 'scalar':
        kw['fixed_value'] = c.real('fv', -100, 100)
        fv = [kw['fixed_value']] * n
    elif fix == 'vector':
        kw['fixed_value'] = c.arr('fv', n, -100, 100)
        fv = [kw['fixed_value'][i] for i in range(n)]
    elif fix == 'bounded':
        kw['fixed_value'] = c.real('fv', 0, 50)
        kw['lower_bound'], kw['upper_bound'] = 0, 50
        fv = [kw['fixed_value']] * n
    elif fix == 'pattern':
        fv = [0, 1, 1]
        kw['fixed_value'] = np.array(fv)
    mm = MathModel('m')
    if kind == 'binary':
        kw['is_binary'] = True
    v = VariableTS('v', n, **kw)
    s = Variable('s', 1, is_binary=kind == 'binary', lower_bound=kw.get('lower_bound') if lo == 'scalar' else None)
    w = VariableTS('w', n)
    mm.add(s, v, w)
    obj = Equation('obj', is_objective=True)
    obj.add_summand(s, 1)
    con = Equation('con')  # other variables tie to the fixed ones by value
    con.add_summand(v, 1)
    con.add_summand(w, -1)
    mm.add(obj, con)
    m = c.model(None, calc=Calc(mm))
    V, W, Z = [[sym.Sym.lift(q) for q in m.results[k]] for k in 'vw'] + [sym.Sym.lift(m.results['s'])]
    spec = []
    for i in range(n):
        c.sound(m, f'tied value {i}', V[i] == W[i])
        q = [W[i] >= l[i]] if l else []
        q += [W[i] <= h[i]] if h else []
        q += [W[i] == fv[i]] if fv else []
        q += [is01(W[i])] if kind == 'binary' else []
        if fv:
            c.sound(m, f'reported value {i} is the fixed one', V[i] == fv[i])
        if q:
            c.sound(m, f'bounds of value {i}', conj(*q))
            spec.append(conj(*q))
        spec.append(conj(W[i] >= -10**4, W[i] <= 10**4))
    zs = [Z >= l[0]] if lo == 'scalar' else []
    zs += [is01(Z)] if kind == 'binary' else []
    for q in zs:
        c.sound(m, 'bounds of the scalar', q)
    c.complete(m, 'nothing else bounds the values', conj(*spec, *zs, Z >= -10**4, Z <= 10**4), [W, Z])


@harness('C18', quick=grid(a=['scalar', 'sum', 'sum list', 'sum tail', 'one2', 'sumscalar'], va=[False, True]), bounds='objective with two summands')
def objective(c, a, va):
    if a in ('scalar', 'one2', 'sumscalar') and va:
        va = False
    mm, x, y = base(c)
    (na, fa, ka), ra = term(c, 'fa', a, va, x, y, N)
    obj = Equation('obj2', is_objective=True)
    obj.add_summand(x if na == 'x' else y, fa, **ka)
    g = c.real('g', -100, 100)
    obj.add_summand(y, g)
    mm.add(obj)  # the last objective added counts
    m = c.model(None, calc=Calc(mm))
    m.results['Objective'] = mm.result_of_objective if c.is_sym else m.objective
    X, Y = [sym.Sym.lift(v) for v in m.results['x']], sym.Sym.lift(m.results['y'])
    want = ra(X, Y)[0] + g * Y
    c.sound(m, 'the objective is the stated sum', m.objective == want)
    c.sound(m, 'the value handed back is the objective', sym.Sym.lift(m.results['Objective']) == want)


@harness('C18', quick=grid(k=[1, 2, 3]), bounds='up to three constraints and four variables of different lengths; labels may coincide')
def several(c, k):
    mm = MathModel('m')
    n = N
    x, y, z = VariableTS('x', n), VariableTS('x2', n + 1), Variable('z', 1)
    b = VariableTS('b', n, is_binary=True)
    mm.add(x, y)
    mm.add(z)
    mm.add(b)
    obj = Equation('obj', is_objective=True)
    obj.add_summand(z, 1)
    mm.add(obj)
    f = [c.arr(f'f{j}', n, -100, 100) for j in range(3)]
    cons = []
    e = Equation('same')
    e.add_summand(x, f[0])
    e.add_summand(y, 1, range(1, n + 1))
    e.add_summand(y, -1, range(0, n))
    cons.append(e)
    if k > 1:
        i = Inequation('same')
        i.add_summand(z, f[1])
        i.add_summand(b, 1)
        cons.append(i)
    if k > 2:
        i = Inequation('third')
        i.add_summand(y, 1, n)
        i.add_summand(b, f[2], as_sum=True)
        i.add_constant(c.real('k', -100, 100))
        cons.append(i)
    mm.add(*cons)
    m = c.model(None, calc=Calc(mm))
    X, Y, B = [[sym.Sym.lift(q) for q in m.results[s]] for s in ('x', 'x2', 'b')]
    Z = sym.Sym.lift(m.results['z'])
    spec = []
    for t in range(n):
        s = f[0][t] * X[t] + Y[t + 1] - Y[t] == 0
        c.sound(m, f'first, row {t}', s)
        spec += [s, is01(B[t])]
        c.sound(m, f'binary {t}', is01(B[t]))
        if k > 1:
            s = f[1][t] * Z + B[t] <= 0
            c.sound(m, f'second, row {t}', s)
            spec.append(s)
    if k > 2:
        s = Y[n] + total(f[2][t] * B[t] for t in range(n)) <= c.real('k', -100, 100)
        c.sound(m, 'third', s)
        spec.append(s)
    spec += [conj(v >= -10**4, v <= 10**4) for v in [*X, *Y, Z]]
    c.complete(m, 'nothing but these rows', conj(*spec), [X, Y, B, Z])


@harness('C18', quick=grid(near=[True, False], fix=[False, True]), bounds='solver values of binaries within 0.001 of 0 or 1')
def returned(c, near, fix):
    """solution values come back to the variable and index they belong to"""
    n = N
    mm = MathModel('m')
    x, z = VariableTS('x', n), Variable('z', 1)
    b, d = VariableTS('b', n, is_binary=True), Variable('d', 1, is_binary=True)
    kw = dict(fixed_value=c.arr('fv', n, -10, 10)) if fix else {}
    f = VariableTS('f', n, **kw)
    mm.add(b, x, d, z, f)
    obj = Equation('obj', is_objective=True)
    obj.add_summand(x, 2, as_sum=True)
    obj.add_summand(z, 3)
    mm.add(obj)
    m = c.model(None, calc=Calc(mm))
    name = {key: [next(iter(sym.Sym.lift(q).atoms())).name.split('.', 1)[1] for q in (v if getattr(v, 'ndim', 0) else [v])]
            for key, v in m.results.items() if not (fix and key == 'f')}
    s = Given(c, near=near)
    for k in range(1 if near else 2):  # a second solution replaces the first
        c.solve(mm, s)
        got = mm.results()
        val = {key: [s.given[-1][x] for x in xs] for key, xs in name.items()}
        for t in range(n):
            c.holds(f'value {t} of a continuous variable, solution {k}', got['x'][t] == val['x'][t])
            c.holds(f'value {t} of a further variable, solution {k}', got['f'][t] == (kw['fixed_value'][t] if fix else val['f'][t]))
            v, g = val['b'][t], got['b'][t]
            c.holds(f'value {t} of a binary variable is rounded, solution {k}', conj(implies(v >= 0.9, g == 1), implies(v <= 0.1, g == 0)))
        c.holds(f'scalar value, solution {k}', got['z'] == val['z'][0])
        v, g = val['d'][0], got['d']
        c.holds(f'scalar binary is rounded, solution {k}', conj(implies(v >= 0.9, g == 1), implies(v <= 0.1, g == 0)))
        c.holds(f'objective value, solution {k}', mm.result_of_objective == 2 * total(val['x']) + 3 * val['z'][0])
