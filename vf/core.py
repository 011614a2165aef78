"""Runs one harness configuration symbolically, proves its claims and turns refutations into
concrete runs of the unmodified code."""
import contextlib
import logging
import os
import random
import re
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import explore, npshim, pyostub, sym
from .explore import Explorer, Stats, check, sample_params, solve_formula
from .sym import Enc, PathAbort, Sym, SymBool, Unsupported, conj, disj, implies, neg, z3

logging.disable(logging.CRITICAL)
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'flixOpt') + os.sep


class Reject(BaseException):
    """sampled parameters do not satisfy the assumptions"""


class MissingResult(Exception):
    """a documented result entry is absent"""


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------------- patching
def _smin(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and npshim.has_sym(xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smin(r, x)
        return r
    return min(xs, **k)


def _smax(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and npshim.has_sym(xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smax(r, x)
        return r
    return max(xs, **k)


@contextlib.contextmanager
def symbolic_modules(extra=()):
    """swap numpy / pyomo / float / min / max inside the flixOpt modules"""
    shim = npshim.shim(True)
    saved = []
    for name, mod in list(sys.modules.items()):
        if not (name == 'flixOpt' or name.startswith('flixOpt.')) or mod is None:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if v is np:
                saved.append((g, k, v))
                g[k] = shim
            elif getattr(v, '__name__', None) == 'pyomo.environ' and type(v) is type(sys):
                saved.append((g, k, v))
                g[k] = pyostub
        for k, v in (('float', npshim.FloatShim), ('min', _smin), ('max', _smax)):
            saved.append((g, k, g.get(k, _MISSING)))
            g[k] = v
    from flixOpt.structure import SystemModel

    for obj, k, v in ((SystemModel, 'solve', _solve_without_log), *extra):
        saved.append((obj, k, obj.__dict__[k]))
        setattr(obj, k, v)
    try:
        yield
    finally:
        for g, k, v in reversed(saved):
            if not isinstance(g, dict):
                setattr(g, k, v)
            elif v is _MISSING:
                g.pop(k, None)
            else:
                g[k] = v


_MISSING = object()


def _solve_without_log(self, solver, *a, **k):
    from flixOpt.math_modeling import MathModel

    MathModel.solve(self, solver)


# ------------------------------------------------------------------------------------- models
class Capture:
    """stands for a solver; receives the modelling-language object"""

    def __init__(self, on_solve=None):
        self.ml = None
        self.on_solve = on_solve
        self.objective = self.best_bound = 0
        self.termination_message = 'optimal'
        self.log = None
        self.logfile_name = None

    def solve(self, ml):
        self.ml = ml
        if self.on_solve:
            self.on_solve(ml.model)


class Given:
    """stands for a solver that returns free values: every variable of the model gets a free parameter
    (near: binaries come back within a tolerance of 0 or 1)"""

    def __init__(self, c, near=False, lo=-1000, hi=1000, ranges=()):
        self.ranges = dict(ranges)  # part of a name: (lowest, highest value)
        self.c, self.near, self.lo, self.hi, self.calls, self.given, self.clean = c, near, lo, hi, 0, [], []
        self.objective = self.best_bound = 0
        self.termination_message = 'optimal'
        self.log = self.logfile_name = None
        self.solver_output_to_console = False
        self.mip_gap = 0

    def solve(self, ml):
        c, pm, env = self.c, ml.model, {}
        if c.is_sym:
            data = [(d.name.split('.', 1)[1], d, d.atom.kind) for v in pm._comps.values() if isinstance(v, pyostub.Var)
                    for d in v.data.values() if not d.fixed]
        else:
            import pyomo.environ as pyo

            data = [(d.name, d, 'b' if d.is_binary() else 'v') for d in pm.component_data_objects(pyo.Var) if not d.fixed]
        clean = {}
        for name, d, kind in data:
            nm = f'r{self.calls}.{name}'
            if kind == 'b' and self.near:
                clean[name] = c.flag(nm)
                x = clean[name] + c.real(nm + '~', Fraction(-1, 1000), Fraction(1, 1000))
            elif kind == 'b':
                x = c.flag(nm)
            else:
                x = c.real(nm, *next((r for k, r in self.ranges.items() if k in name), (self.lo, self.hi)))
            d.set_value(x, skip_validation=True)
            if c.is_sym:
                d.given = True
            env[name] = x
            clean.setdefault(name, x)
        self.given.append(env)
        self.clean.append(clean)
        self.calls += 1


class Model:
    """rows: [(label, '==' | '<=', Sym)] meaning Sym rel 0"""

    def __init__(self, rows, objective, results, extra=None):
        self.rows, self.objective, self.results = rows, objective, results
        self.calc = extra

    def get(self, *path):
        d = self.results
        for k in path:
            if not isinstance(d, dict) or k not in d:
                raise MissingResult(f'no entry {k!r} of {path} in the results')
            d = d[k]
        return d

    def has(self, *path):
        try:
            self.get(*path)
            return True
        except MissingResult:
            return False

    def v(self, *path):
        """a result entry: list for time series, Sym for scalars"""
        r = self.get(*path)
        if isinstance(r, dict):
            raise MissingResult(f'{path} is not a value')
        if isinstance(r, np.ndarray) and r.ndim:
            return [Sym.lift(x) for x in r.tolist()] if r.dtype != object else [Sym.lift(x) for x in r.view(np.ndarray)]
        return Sym.lift(r)

    def comp(self, *path):
        return self.v('Components', *path)

    def effect(self, label, kind, what):
        return self.v('Effects', label, kind, f'{kind}_{what}')

    def formulas(self):
        return [row_formula(r) for r in self.rows]

    def paths(self):
        out = {}

        def go(d, p):
            for k, v in d.items():
                if isinstance(v, dict):
                    go(v, p + (k,))
                elif isinstance(v, np.ndarray) and v.ndim:
                    for i, x in enumerate(v.tolist() if v.dtype != object else v.view(np.ndarray)):
                        out[p + (k, i)] = x
                elif v is not None:
                    out[p + (k,)] = v

        go({k: v for k, v in self.results.items() if k in ('Components', 'Effects', 'Buses', 'Others')}, ())
        return out


def row_formula(r):
    _, rel, p = r
    return sym.mk_cmp(p, rel)


def build_sym(calc, fs=None):
    """symbolic mode: the stub model recorded by the translation"""
    cap = Capture()
    from flixOpt.math_modeling import MathModel

    MathModel.solve(calc.system_model, cap)
    pm = cap.ml.model
    return Model(pm._all_rows(), pm._objective, calc.system_model.results(), calc)


def build_num(calc, serial):
    """real Pyomo model: rows through Pyomo's own standard representation"""
    import pyomo.environ as pyo
    from flixOpt.math_modeling import MathModel

    state = {}

    def assign(pm):
        if 'vars' not in state:
            state['pm'] = pm
            state['vars'] = [v for v in pm.component_data_objects(pyo.Var) if not v.fixed]
            state['old'] = None
        for i, v in enumerate(state['vars']):
            if 'unit' in state:
                v.set_value(int(state['unit'] in (i, -1)), skip_validation=True)
                continue
            bit = (i >> state['round']) & 1
            v.set_value(bit ^ state['inv'], skip_validation=True)

    cap = Capture(assign)
    rounds = []
    state['round'], state['inv'] = 0, 0
    MathModel.solve(calc.system_model, cap)
    n = max(len(state['vars']), 1)
    nb = max(1, n.bit_length())
    for k in range(nb):
        two = []
        for inv in (0, 1):
            state['round'], state['inv'] = k, inv
            MathModel.solve(calc.system_model, cap)
            two.append(calc.system_model.results())
        rounds.append(two)
    atoms = []
    pref = f'm{serial}.'
    for v in state['vars']:
        kind = 'b' if v.is_binary() else ('i' if v.is_integer() else 'v')
        atoms.append(sym.atom(pref + v.name, kind))

    odd = []

    def decode(vals, path=()):
        """vals: [(x_k, x_k inverted)]"""
        x0 = vals[0][0]
        if isinstance(x0, dict):
            return {k: decode([(a[k], b[k]) for a, b in vals], path + (k,)) for k in x0}
        if isinstance(x0, np.ndarray) and x0.ndim and x0.dtype.kind in 'fiu':
            out = [decode([(a[i], b[i]) for a, b in vals], path + (i,)) for i in range(len(x0))]
            r = np.empty(len(out), dtype=object)
            for i, y in enumerate(out):
                r[i] = y
            return r
        if isinstance(x0, (int, float, np.number)) and not isinstance(x0, bool):
            code = 0
            for k, (a, b) in enumerate(vals):
                if a == b and all(p == q == x0 for p, q in vals):
                    return x0
                if (a, b) not in ((0, 1), (1, 0)):
                    return odd_one(path)
                code |= int(a) << k
            return Sym.of(atoms[code]) if code < len(atoms) else odd_one(path)
        return x0

    def odd_one(path):
        odd.append(path)
        return 0

    results = decode(rounds)
    if odd:  # entries that are not one variable: decode them as affine functions
        def snapshot():
            MathModel.solve(calc.system_model, cap)
            r = {'Objective': calc.system_model.result_of_objective} if odd == [('Objective',)] else calc.system_model.results()
            out = []
            for p in odd:
                d = r
                for k in p:
                    d = d[k]
                out.append(float(d))
            return out

        state['unit'] = None
        zero = snapshot()
        acc = [Sym.const(z) for z in zero]
        total = list(zero)
        for i, a in enumerate(atoms):
            state['unit'] = i
            for j, y in enumerate(snapshot()):
                if y != zero[j]:
                    acc[j] = acc[j] + Sym.const(sym.snap(y - zero[j])) * Sym.of(a)
                    total[j] += y - zero[j]
        state['unit'] = -1
        for j, y in enumerate(snapshot()):
            if abs(y - total[j]) > 1e-6 * max(1, abs(y)):
                raise HarnessError(f'result entry {odd[j]} is not an affine function of the variables')
        for p, e in zip(odd, acc):
            d = results
            for k in p[:-1]:
                d = d[k]
            d[p[-1]] = e
    pm = state['pm']
    vmap = {id(v): a for v, a in zip(state['vars'], atoms)}
    from pyomo.repn import generate_standard_repn

    def lin(expr):
        rep = generate_standard_repn(expr)
        if not rep.is_linear():
            raise HarnessError('non-linear expression in the generated model')
        s = Sym.const(pyo.value(rep.constant))
        for c, v in zip(rep.linear_coefs, rep.linear_vars):
            s = s + Sym.const(pyo.value(c)) * Sym.of(vmap[id(v)])
        return s

    rows = []
    for c in pm.component_data_objects(pyo.Constraint, active=True):
        body = lin(c.body)
        lo, up = c.lower, c.upper
        if c.equality:
            rows.append((c.name, '==', body - pyo.value(up)))
        else:
            if lo is not None and pyo.value(lo) != float('-inf'):
                rows.append((c.name, '<=', Sym.const(pyo.value(lo)) - body))
            if up is not None and pyo.value(up) != float('inf'):
                rows.append((c.name, '<=', body - pyo.value(up)))
    for v, a in zip(state['vars'], atoms):
        if v.lb is not None and not (a.kind == 'b' and v.lb <= 0):
            rows.append((f'lb {a.name}', '<=', Sym.const(v.lb) - Sym.of(a)))
        if v.ub is not None and not (a.kind == 'b' and v.ub >= 1):
            rows.append((f'ub {a.name}', '<=', Sym.of(a) - v.ub))
    objs = list(pm.component_data_objects(pyo.Objective, active=True))
    if len(objs) != 1:
        raise HarnessError(f'{len(objs)} objectives')
    obj = lin(objs[0].expr) * (1 if objs[0].sense == pyo.minimize else -1)
    return Model(rows, obj, results, calc)


# ------------------------------------------------------------------------------------- context
class Claim:
    def __init__(self, kind, name, models, formula=None, main=None, witness=None):
        self.kind, self.name, self.models, self.formula = kind, name, models, formula
        self.main, self.witness = main, witness


class Ctx:
    def __init__(self, mode, rng=None, values=None):
        self.mode = mode
        self.rng = rng or random.Random(0)
        self.values = dict(values or {})  # parameter values (num mode)
        self.used = {}
        self.claims = []
        self.assumed = []
        self.models = []
        self.notes = []
        pyostub.SERIAL[0] = 0
        self.serial = 0

    @property
    def is_sym(self):
        return self.mode == 'sym'

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        numeric = lambda x: x is None or isinstance(x, (int, float, Fraction))  # noqa: E731
        if self.is_sym:
            a = sym.atom(name, 'p', lo if numeric(lo) else None, hi if numeric(hi) else None)
            s = Sym.of(a)
            if not numeric(lo):
                self.assume(s >= lo)
            if not numeric(hi):
                self.assume(s <= hi)
            return s
        if name in self.values:
            v = self.values[name]
        else:
            l = float(lo) if lo is not None else -20.0
            h = float(hi) if hi is not None else max(l, 0.0) + 20.0
            for _ in range(20):
                v = self.rng.choice([l, h] + [l + (h - l) * k / 8 for k in range(1, 8)] * 2
                                    + [x for x in (0, 1, 2, 3, 5, 10, 0.5, 0.25) if l <= x <= h])
                if name not in self.values:
                    break
            v = Fraction(round(v * 64), 64) if l != h else Fraction(repr(l))
            v = min(max(v, sym.to_frac(l)), sym.to_frac(h))
        self.used[name] = v
        f = float(v)
        return int(f) if f.is_integer() and abs(f) < 1e15 else f

    def flag(self, name):
        """a free 0/1 input"""
        if self.is_sym:
            return Sym.of(sym.atom(name, 'q'))
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(0, 1)
        self.used[name] = v = int(v)
        return v

    def arr(self, name, n, lo=None, hi=None, vary=True):
        """an array of free reals (a numpy array); vary: not all elements equal"""
        xs = [self.real(f'{name}{i}', lo, hi) for i in range(n)]
        if vary and n > 1:
            self.assume(xs[0] != xs[1])
        return self.pack(xs)

    def pack(self, xs):
        if self.is_sym:
            return npshim.mk([Sym.lift(x) for x in xs])
        return np.array([float(x) for x in xs])

    def assume(self, f):
        if self.is_sym:
            f = sym.as_bool(f)
            if not isinstance(f, bool):
                self.assumed.append(f)
            sym.CUR.assume(f)
        elif not bool(f):
            raise Reject()

    def ite(self, c, a, b):
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        return sym.ite(c, a, b)

    # ---- time
    def time(self, n, equal=False, lo=Fraction(1, 4), hi=24):
        """time stamps of n steps; the duration of step i is a free real dt[i] (hours)"""
        if equal:
            d = self.real('dt', lo, hi)
            dt = [d] * n
        else:
            dt = [self.real(f'dt{i}', lo, hi) for i in range(n - 1)]
            if n > 2:
                self.assume(dt[0] != dt[1])
            dt.append(dt[-1])  # the last step is as long as the one before it
        return self.stamps(dt), dt

    def stamps(self, dt):
        if self.is_sym:
            t, out = Sym.const(0), []
            for d in dt:
                out.append(npshim.Stamp(t))
                t = t + d
            return npshim.mk(out)
        us = [0]
        for d in dt:
            us.append(us[-1] + int(round(float(d) * 3600 * 10**6)))
        return np.datetime64('2020-01-01T00:00:00', 'us') + np.array(us[: len(dt)], dtype='timedelta64[us]')

    # ---- building
    def model(self, fs, time_indices=None, calc=None, name='calc'):
        import flixOpt as fx

        if calc is None:
            calc = fx.FullCalculation(name, fs, time_indices=time_indices)
        calc.do_modeling()
        m = build_sym(calc) if self.is_sym else build_num(calc, self.serial)
        self.serial += 1
        self.models.append(m)
        return m

    def solved(self, calc, **k):
        """model the calculation and give it free values as the solution; returns the solver stand-in"""
        s = Given(self, **k)
        calc.do_modeling()
        self.solve(calc.system_model, s)
        return s

    def solve(self, mm, s):
        from flixOpt.math_modeling import MathModel

        MathModel.solve(mm, s)

    # ---- claims
    def sound(self, models, name, formula):
        """every solution of the model(s) satisfies the formula"""
        self.claims.append(Claim('sound', name, _list(models), sym.as_bool(_plain(formula))))

    def complete(self, model, name, spec, main, witness=None):
        """every assignment of the main entries satisfying the specification can be extended to a
        solution of the model (nothing beyond the specification is excluded)"""
        atoms = set()
        for m in main:
            for x in (m if isinstance(m, (list, tuple)) else [m]):
                for a in Sym.lift(x).atoms():
                    if a.kind in pyostub.DECISION:
                        atoms.add(a.id)
        w = {}
        for k, v in (witness or []):
            for kk, vv in zip(k, v, strict=True) if isinstance(k, (list, tuple)) else [(k, v)]:
                at = list(Sym.lift(kk).atoms())
                if len(at) == 1 and at[0].kind in pyostub.DECISION:
                    w[at[0].id] = vv
        self.claims.append(Claim('complete', name, [model], sym.as_bool(_plain(spec)), atoms, w))

    def holds(self, name, formula):
        """a fact about computed values (no decision variables)"""
        self.claims.append(Claim('holds', name, [], sym.as_bool(_plain(formula))))

    def same(self, m1, m2, name, rename=None):
        """both models have the same solutions (entries with the same result path identified) and
        the same objective"""
        self.claims.append(Claim('same', name, [m1, m2], rename))

    def raises(self, fn, *exc):
        try:
            fn()
        except (exc or Exception):
            return True
        return False


def _list(x):
    return [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]


def _plain(f):
    if isinstance(f, (list, tuple)):
        return conj(*[_plain(x) for x in f]) if f else True
    return f


# ------------------------------------------------------------------------------------- obligations
def eliminate(rows, main, witness):
    """Solve equality rows for auxiliary variables.  Returns (remaining formulas, leftovers)."""
    rows = [(r[0], r[1], r[2]) for r in rows]
    obligations = []
    env = {}
    if witness:
        memo = {}
        w = {k: Sym.lift(v) for k, v in witness.items()}
        rows = [(l, rel, sym.subst(p, w, memo)) for l, rel, p in rows]
        for k, v in w.items():
            if sym.Atom.order[k].kind == 'b':
                obligations.append((f'witness of {sym.Atom.order[k].name} is 0/1', disj(v == 0, v == 1)))

    def aux_of(p):
        return {a.id for a in p.atoms() if a.kind in pyostub.DECISION and a.id not in main}

    pending = rows
    while True:
        best = None
        for n, (l, rel, p) in enumerate(pending):
            if rel != '==':
                continue
            ax = aux_of(p)
            if not ax:
                continue
            for aid in ax:
                m = ((aid, 1),)
                if m not in p.t or any(aid in dict(mm) for mm in p.t if mm != m):
                    continue
                key = (len(ax), len(p.t), 0 if sym.Atom.order[aid].kind == 'v' else 1)
                if best is None or key < best[0]:
                    best = (key, n, aid)
        if best is None:
            break
        _, n, aid = best
        l, rel, p = pending[n]
        c = p.t[((aid, 1),)]
        rest = Sym({m: -x / c for m, x in p.t.items() if m != ((aid, 1),)})
        at = sym.Atom.order[aid]
        if at.kind == 'b':
            obligations.append((f'{at.name} is 0/1', (aid, disj(rest == 0, rest == 1))))
        del pending[n]
        e = {aid: rest}
        memo = {}
        pending = [(a, b, sym.subst(q, e, memo) if any(aid == x for m in q.t for x, _ in m) else q) for a, b, q in pending]
        obligations = [(a, (b[0], sym.subst(b[1], e, {})) if isinstance(b, tuple) else sym.subst(b, e, {})) for a, b in obligations]
    out = [(l, sym.mk_cmp(p, rel)) for l, rel, p in pending]
    out += [(a, b[1] if isinstance(b, tuple) else b) for a, b in obligations]
    left = set()
    for _, f in out:
        for a in f_atoms(f):
            if a.kind in pyostub.DECISION and a.id not in main:
                left.add(a.name)
    return [(l, f) for l, f in out if not (isinstance(f, bool) and f)], left


def f_atoms(f):
    if isinstance(f, bool):
        return set()
    if f.op == 'cmp':
        out = set()
        for a in f.a[1].atoms():
            out.add(a)
            if a.kind == 'ite':
                out |= f_atoms(a.data[0]) | p_atoms(a.data[1]) | p_atoms(a.data[2])
            elif a.kind == 'inv':
                out |= p_atoms(a.data[0])
        return out
    if f.op == 'not':
        return f_atoms(f.a)
    return set().union(*[f_atoms(x) for x in f.a])


def p_atoms(p):
    out = set()
    for a in p.atoms():
        out.add(a)
        if a.kind == 'ite':
            out |= f_atoms(a.data[0]) | p_atoms(a.data[1]) | p_atoms(a.data[2])
        elif a.kind == 'inv':
            out |= p_atoms(a.data[0])
    return out


def identify(m1, m2, rename=None):
    """substitution for m2's variables by m1's entries with the same result path"""
    p1, p2 = m1.paths(), m2.paths()
    env, missing = {}, []
    for path, x in p2.items():
        q = rename(path) if rename else path
        if q is None:
            continue
        if q not in p1:
            missing.append(path)
            continue
        x = Sym.lift(x)
        at = [a for a in x.atoms() if a.kind in pyostub.DECISION]
        if len(at) == 1 and x.t == {((at[0].id, 1),): 1}:
            env[at[0].id] = Sym.lift(p1[q])
    return env, missing


def fixes(m):
    """the values of the fixed variables of a model"""
    out = {}
    for label, rel, p in m.rows:
        at = [a for a in p.atoms() if a.kind in pyostub.DECISION]
        if label.startswith('fix ') and len(at) == 1:
            out[at[0].id] = Sym.of(at[0]) - p
    return out


def obligations(claim):
    """claim -> list of (name, hypotheses, conclusion)"""
    if claim.kind == 'sound':
        return [(claim.name, sum((m.formulas() for m in claim.models), []), claim.formula)], set()
    if claim.kind == 'holds':
        return [(claim.name, [], claim.formula)], set()
    if claim.kind == 'complete':
        rest, left = eliminate(claim.models[0].rows, claim.main, claim.witness)
        return [(f'{claim.name}: {l}', [claim.formula], f) for l, f in rest], left
    if claim.kind == 'same':
        m1, m2 = claim.models
        env, missing = identify(m1, m2, claim.formula)
        memo = {}
        known = set()
        for x in m1.paths().values():
            known |= {a.id for a in Sym.lift(x).atoms()}
        objs = [sym.subst(m.objective, fixes(m)) for m in (m1, m2)]
        objs[1] = sym.subst(objs[1], env, memo)
        r1, left1 = eliminate(m1.rows, known, {})
        r2, left2 = eliminate([(l, rel, sym.subst(p, env, memo)) for l, rel, p in m2.rows], known, {})
        h1, h2 = [f for _, f in r1], [f for _, f in r2]
        out = [(f'{claim.name}: result {p} only in one model', [], False) for p in missing]
        out += [(f'{claim.name}: second has {l}', h1, f) for l, f in r2]
        out += [(f'{claim.name}: first has {l}', h2, f) for l, f in r1]
        out.append((f'{claim.name}: objective', h1, objs[0] == objs[1]))
        return out, left1 | left2
    raise AssertionError(claim.kind)


def resolve(m, pc, stats, nonneg):
    """the model with the case distinctions decided by the path condition replaced by their outcome"""
    rows, obj = m.rows, m.objective
    for _ in range(4):
        todo, seen, env = [a for r in rows for a in r[2].atoms()] + list(Sym.lift(obj).atoms()), set(), {}
        while todo:
            a = todo.pop()
            if a.id in seen or a.kind != 'ite':
                continue
            seen.add(a.id)
            c, x, y = a.data
            todo += list(x.atoms()) + list(y.atoms())
            if solve_formula(list(pc) + [c], stats, nonneg, timeout=2000)[0] == 'unsat':
                env[a.id] = y
            elif solve_formula(list(pc) + [neg(c)], stats, nonneg, timeout=2000)[0] == 'unsat':
                env[a.id] = x
        if not env:
            break
        memo = {}
        rows = [(l, rel, sym.subst(p, env, memo)) for l, rel, p in rows]
        obj = sym.subst(obj, env, memo)
    if rows is m.rows:
        return m
    return Model(rows, obj, m.results, m.calc)


def prove_group(pc, hyps, goals, stats, nonneg, timeout=15000):
    """relaxation first; returns list of (goal index, 'proved' | 'open', param hints)"""
    res = {}
    todo = []
    for i, (_, g) in enumerate(goals):
        stats.obligations += 1
        if isinstance(g, bool) and g:
            res[i] = ('proved', None)
        else:
            todo.append(i)
    if not todo:
        return res
    base = explore.flatten(list(pc) + list(hyps))
    if any(isinstance(f, bool) and not f for f in base):
        return {i: ('proved', None) for i in range(len(goals))}
    base = [f for f in base if not isinstance(f, bool)]
    e = Enc(True)
    e.nonneg |= set(nonneg)
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in base:
        s.add(e.b(f))
    zg = {i: z3.Not(e.b(goals[i][1])) if not isinstance(goals[i][1], bool) else z3.BoolVal(not goals[i][1]) for i in todo}
    for x in e.side:
        s.add(x)
    s.push()
    s.add(z3.Or(*zg.values()))
    r = check(s, stats)
    s.pop()
    if r == z3.unsat:
        for i in todo:
            res[i] = ('proved', None)
        return res
    for i in todo:
        s.push()
        s.add(zg[i])
        r = check(s, stats)
        if r == z3.unsat:
            res[i] = ('proved', None)
        else:
            hint = None
            if r == z3.sat:
                try:
                    hint = {a: v for a, v in explore.model_env(s.model(), e).items() if sym.Atom.order[a].kind in ('p', 'q')}
                except Unsupported:
                    hint = None
            if r == z3.sat and not e.has_nl:
                res[i] = ('refuted', hint)
            else:
                res[i] = ('open', hint)
        s.pop()
    return res


def weaken(f, m):
    """allow comparisons to be missed by a margin"""
    if isinstance(f, (bool, np.bool_)):
        return bool(f)
    if f.op == 'cmp':
        rel, p = f.a
        ats = p.atoms()
        if ats and all(a.kind in sym.BIN for a in ats):
            return f
        sc = max([abs(c) for mm, c in p.t.items()] + [Fraction(1)])
        k = sym.to_frac(m) * sc
        if rel == '==':
            return conj(p <= k, -p <= k)
        return p <= k
    if f.op == 'not':
        return f
    xs = [weaken(x, m) for x in f.a]
    return conj(*xs) if f.op == 'and' else disj(*xs)


MARGIN = Fraction(1, 10**4)


def in_package(tb):
    """was the exception raised while code of the package was running?"""
    return any(fr.filename.startswith(PKG) for fr in traceback.extract_tb(tb))


# --------------------------------------------------------------------------------- concrete runs
def num_run(fn, cfg, values=None, seed=0, stats=None, only=None):
    """One run of the harness on the unmodified code with concrete parameters; decisions are still
    decided by the solver.  Returns ('ok'|'reject', used) or ('violation', used, detail)."""
    stats = stats or Stats()
    sym.CUR = None
    ctx = Ctx('num', random.Random(seed), values)
    try:
        fn(ctx, **cfg)
    except Reject:
        return ('reject', ctx.used, None)
    except HarnessError as e:
        return ('error', ctx.used, f'{e}')
    except MissingResult as e:
        return ('violation', ctx.used, f'results: {e}')
    except Exception as e:
        if in_package(e.__traceback__):
            return ('violation', ctx.used, f'raises {type(e).__name__}: {str(e)[:300]}')
        return ('error', ctx.used, ''.join(traceback.format_exception(e))[-1500:])
    for cl in ctx.claims:
        if only and cl.name != only:
            continue
        r = num_claim(cl, stats)
        if r:
            return ('violation', ctx.used, r)
    return ('ok', ctx.used, ctx)


def box(fs, bound=10**6):
    ats = set()
    for f in fs:
        ats |= f_atoms(f)
    return [conj(Sym.of(a) <= bound, -Sym.of(a) <= bound) for a in ats if a.kind in ('v', 'i')]


def among(goal, hyps, seen):
    """the goal is one of the hypotheses (up to rounding of its coefficients)"""
    if not isinstance(goal, SymBool) or goal.op != 'cmp':
        return False
    if id(hyps) not in seen:
        d = seen[id(hyps)] = {}
        for h in hyps:
            if isinstance(h, SymBool) and h.op == 'cmp':
                d.setdefault((h.a[0], frozenset(h.a[1].t)), []).append(h.a[1].t)
    op, p = goal.a
    return any(all(abs(c - q[m]) <= abs(c) * Fraction(1, 10**13) for m, c in p.t.items())
               for q in seen[id(hyps)].get((op, frozenset(p.t)), ()))


def num_claim(cl, stats):
    obs, left = obligations(cl)
    if cl.kind == 'complete' and left:
        return None
    seen = {}
    for name, hyps, goal in obs:
        stats.obligations += 1
        if among(goal, hyps, seen):
            continue
        bad = neg(weaken(goal, MARGIN))
        if isinstance(bad, bool) and not bad:
            continue
        fs = list(hyps) + [bad]
        fs += box([f for f in fs if not isinstance(f, bool)])
        r, env = solve_formula(fs, stats, exact=True, timeout=20000)
        if r != 'sat':
            continue
        if cl.kind == 'complete':
            # is the assignment of the main entries really excluded by the real model?
            fixed = []
            for aid in cl.main:
                fixed.append(Sym.of(sym.Atom.order[aid]) == Sym.const(env.get(aid, 0)))
            # entries the counterexample says nothing about may take any value
            fixed = [f for f, aid in zip(fixed, cl.main) if aid in env]
            rows = [weaken(f, Fraction(1, 10**5)) for f in cl.models[0].formulas()]
            r2, _ = solve_formula(rows + fixed, stats)
            if r2 != 'unsat':
                continue
            show = {sym.Atom.order[a].name: fl(env[a]) for a in cl.main if a in env}
            return f'{name} excludes an allowed solution {trim(show)}'
        show = {sym.Atom.order[a].name: fl(v) for a, v in env.items()}
        what = 'holds for a solution of the model' if cl.kind == 'sound' else ''
        return f'{name} fails {("at " + str(trim(show))) if show else ""} {what}'.strip()
    return None


def fl(x):
    return int(x) if x.denominator == 1 else float(x)


def trim(d, n=40):
    ks = [k for k in sorted(d) if d[k] != 0]
    return {plain_name(k): d[k] for k in ks[:n]}


# --------------------------------------------------------------------------------- one config
class ConfigResult(dict):
    pass


def named(env):
    return {sym.Atom.order[a].name: v for a, v in env.items()}


def run_config(fn, cfg, seed=1, tier='quick', budget=100, max_paths=300, validate=2, extra_patches=None):
    """Symbolic run of one configuration. Returns a plain dict."""
    t0 = time.time()
    stats = Stats()
    out = dict(cfg=cfg, status='ok', violation=None, inconclusive=[], degraded=None, claims=0, proved=0, functions=[],
               paths=0, truncated=False, validated=0, samples=[], num_runs=0, reached=0, vacuous=[])
    rng = random.Random(f'{seed}-{fn.__name__}-{sorted(cfg.items(), key=str)}')
    pend = []  # (path condition, nonneg, claims) or exceptions
    funcs = set()
    deadline = t0 + budget
    sym.reset_atoms()

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(PKG):
                funcs.add(f'{co.co_filename[len(PKG):]}:{co.co_qualname}')

    first = [True]

    def once():
        ctx = Ctx('sym')
        if first[0]:
            first[0] = False
            sys.setprofile(prof)
            try:
                fn(ctx, **cfg)
            finally:
                sys.setprofile(None)
        else:
            fn(ctx, **cfg)
        return ctx

    def on_path(ex, oc):
        pend.append((list(ex.pc), set(ex.enc.nonneg), oc))

    ex = Explorer(stats, max_paths=max_paths, deadline=t0 + budget * 0.6)
    patches = tuple(extra_patches() if extra_patches else ())
    degraded = None
    try:
        with symbolic_modules(patches):
            ex.run(once, on_path)
    except Unsupported as e:
        sys.setprofile(None)
        degraded = f'symbolic run stopped: {e}'
    except Exception as e:  # a defect of the engine itself, not of the code under test
        sys.setprofile(None)
        degraded = f'engine: {type(e).__name__}: {e} ' + ''.join(traceback.format_tb(e.__traceback__)[-2:])
    out['truncated'] = ex.truncated
    out['paths'] = stats.paths
    out['functions'] = sorted(funcs)

    def attempt(values, why, only=None):
        """a concrete run; True when it shows a violation"""
        out['num_runs'] += 1
        r = num_run(fn, cfg, {k: v for k, v in values.items()}, seed=rng.randrange(10**9), stats=stats)
        if r[0] == 'violation':
            out['status'] = 'violation'
            out['violation'] = dict(values={k: str(v) for k, v in r[1].items()}, detail=r[2], why=why)
            return True
        if r[0] == 'error':
            out['inconclusive'].append(f'concrete run failed in the harness: {r[2]}')
        return False

    def finish():
        out['stats'] = stats.as_dict()
        out['wall_s'] = round(time.time() - t0, 2)
        return ConfigResult(out)

    # --- prove the claims of every path
    for pc, nonneg, oc in pend:
        if out['status'] == 'violation':
            break
        if oc[0] == 'exc':
            e = oc[1]
            out['claims'] += 1
            inside = in_package(e.__traceback__) or isinstance(e, MissingResult)
            tries = [sample_params(pc, stats, rng) for _ in range(3)]
            hit = False
            for v in tries:
                if v is not None and attempt(named(v), f'{type(e).__name__}: {str(e)[:200]} on a symbolic path'):
                    hit = True
                    break
            if not hit:
                out['inconclusive'].append(
                    f'symbolic path raises {type(e).__name__}: {str(e)[:300]} (inside package: {inside}) but concrete runs do not; '
                    + ''.join(traceback.format_tb(e.__traceback__)[-2:]))
            continue
        ctx = oc[1]
        groups = {}
        memo = {}
        for cl in ctx.claims:
            if cl.kind == 'same':
                cl.models = [memo.setdefault(id(m), resolve(m, pc, stats, nonneg)) for m in cl.models]
            obs, left = obligations(cl)
            if left:
                out['inconclusive'].append(f'{cl.name}: auxiliary variables without definition: {sorted(left)[:5]}')
            for name, hyps, goal in obs:
                k = (cl.kind, tuple(id(m) for m in cl.models)) if cl.kind in ('sound', 'holds') else (id(cl), id(hyps))
                groups.setdefault(k, (hyps, []))[1].append((name, goal, cl))
        for hyps, gl in groups.values():
            out['claims'] += len(gl)
            res = prove_group(pc, hyps, [(n, g) for n, g, _ in gl], stats, nonneg)
            for i, (name, goal, cl) in enumerate(gl):
                st, hint = res[i]
                if st == 'proved':
                    out['proved'] += 1
                    continue
                ok = settle(pc, hyps, name, goal, st, hint, stats, nonneg, rng, attempt, out, deadline)
                if ok == 'violation':
                    return finish()
                if ok:
                    out['proved'] += 1
        # reachability: the path condition with the rows of its models has a solution
        if ctx.models and out['reached'] < 3:
            for attempt_no in range(5):
                v = sample_params(pc, stats, rng, model=ctx.models[0] if attempt_no == 4 else None)
                if v is None:
                    break
                pv = {a: Sym.const(x) for a, x in v.items()}
                ok = True
                for m in ctx.models:
                    memo = {}
                    fs = [sym.subst(f, pv, memo) for f in m.formulas()]
                    r, _ = solve_formula(fs, stats, exact=True, timeout=10000)
                    ok = ok and r == 'sat'
                if ok:
                    out['reached'] += 1
                    break
            else:
                out['vacuous'].append(str({k: str(x) for k, x in named(v).items()})[:300])
        elif not ctx.models:
            out['reached'] += 1

    # --- cross-check the encoding against the real translation on sampled parameters of some paths
    if out['status'] == 'ok' and degraded is None:
        idx = [i for i, p in enumerate(pend) if p[2][0] == 'ok']
        rng.shuffle(idx)
        for i in idx[:validate]:
            pc, nonneg, oc = pend[i]
            v = sample_params(pc, stats, rng)
            if v is None:
                continue
            vals = named(v)
            out['num_runs'] += 1
            r = num_run(fn, cfg, vals, seed=rng.randrange(10**9), stats=stats)
            if r[0] == 'violation':
                out['status'] = 'violation'
                out['violation'] = dict(values={k: str(x) for k, x in r[1].items()}, detail=r[2], why='concrete run of a symbolic path')
                break
            if r[0] == 'error':
                out['inconclusive'].append(f'concrete run failed in the harness: {r[2]}')
            if r[0] != 'ok':
                continue
            d = compare_models(oc[1], v, r[2])
            if d:
                out['inconclusive'].append(f'encoding differs from the real translation: {d}')
            else:
                out['validated'] += 1
                if len(out['samples']) < 3:
                    out['samples'].append({k: str(x) for k, x in list(vals.items())[:30]})

    # --- fallback: parameters sampled, decisions solved
    if out['status'] == 'ok' and (degraded or out['inconclusive'] or ex.truncated):
        out['degraded'] = degraded
        n = 0
        rej = 0
        while n < (12 if degraded else 5) and rej < 200 and time.time() < deadline:
            r = num_run(fn, cfg, {}, seed=rng.randrange(10**9), stats=stats)
            if r[0] == 'reject':
                rej += 1
                continue
            n += 1
            out['num_runs'] += 1
            if r[0] == 'violation':
                out['status'] = 'violation'
                out['violation'] = dict(values={k: str(v) for k, v in r[1].items()}, detail=r[2], why='sampled parameters')
                break
            if r[0] == 'error':
                out['inconclusive'].append(f'concrete run failed in the harness: {r[2]}')
                break
        if n == 0 and rej:
            out['inconclusive'].append('no sampled parameters satisfied the assumptions')
    return finish()


def _presolve(fs, goal, limit=400):
    """Fixes and eliminates decision variables by the linear equalities among fs.  Returns
    (remaining formulas, goal) or None when fs is contradictory."""
    fs = explore.flatten(fs)
    for _ in range(limit):
        if any(isinstance(f, bool) and not f for f in fs):
            return None
        fs = [f for f in fs if not isinstance(f, bool)]
        rows = [f.a for f in fs if f.op == 'cmp']
        low = {a.id for f in rows for a in f[1].atoms() if a.lo is not None and a.lo >= 0} | {
            a.id for f in rows for a in f[1].atoms() if a.kind in sym.BIN}
        for rel, q in rows:
            if rel in ('<=', '<') and len(q.t) == 1:
                (m, x), = q.t.items()
                if len(m) == 1 and m[0][1] == 1 and x < 0:
                    low.add(m[0][0])
        env = {}
        for rel, q in rows:
            const = q.t.get((), 0)
            lin = [(m, x) for m, x in q.t.items() if m != ()]
            if not lin or any(len(m) != 1 or m[0][1] != 1 for m, _ in lin):
                continue
            if rel == '==' and len(lin) == 1 and sym.Atom.order[lin[0][0][0][0]].kind in pyostub.DECISION:
                env[lin[0][0][0][0]] = Sym.const(-const / lin[0][1])
                break
            if const == 0 and rel in ('==', '<=') and all(m[0][0] in low for m, _ in lin) and (
                    all(x > 0 for _, x in lin) or (rel == '==' and all(x < 0 for _, x in lin))):
                env = {m[0][0]: Sym.const(0) for m, _ in lin}
                break
        if not env:
            best = None
            for rel, q in rows:
                if rel != '==':
                    continue
                for m, x in q.t.items():
                    if len(m) == 1 and m[0][1] == 1 and sym.Atom.order[m[0][0]].kind == 'v' and not any(
                            mm != m and any(y == m[0][0] for y, _ in mm) for mm in q.t):
                        if best is None or len(q.t) < best[0]:
                            best = (len(q.t), m, x, q)
            if best is None:
                return fs, goal
            _, m, x, q = best
            env = {m[0][0]: Sym({mm: -y / x for mm, y in q.t.items() if mm != m})}
        memo = {}
        fs = explore.flatten([sym.subst(f, env, memo) for f in fs])
        goal = sym.subst(goal, env, memo) if not isinstance(goal, bool) else goal
    return fs, goal


def case_split(fs, goal, stats, nonneg, deadline, depth=0):
    """proves fs -> goal by enumerating the 0/1 variables; True when proved"""
    if time.time() > deadline:
        return False
    r = _presolve(fs, goal)
    if r is None:
        return True
    fs, goal = r
    if isinstance(goal, bool) and goal:
        return True
    bins = {}
    for f in fs + ([goal] if not isinstance(goal, bool) else []):
        for a in f_atoms(f):
            if a.kind in sym.BIN and a.kind in pyostub.DECISION:
                bins[a.id] = bins.get(a.id, 0) + 1
    if not bins or depth >= 8:
        return solve_formula(list(fs) + [neg(goal)], stats, nonneg, timeout=10000)[0] == 'unsat'
    b = max(bins, key=lambda i: (bins[i], -i))
    for v in (1, 0):
        env, memo = {b: Sym.const(v)}, {}
        g = goal if isinstance(goal, bool) else sym.subst(goal, env, memo)
        if not case_split([sym.subst(f, env, memo) for f in fs], g, stats, nonneg, deadline, depth + 1):
            return False
    return True


def settle(pc, hyps, name, goal, st, hint, stats, nonneg, rng, attempt, out, deadline):
    """a claim the linear relaxation could not prove: try to refute it concretely, then decide it exactly"""
    tried = []
    if hint:
        ok = True
        try:
            ok = all(sym.evalf(f, hint) for f in pc)
        except (KeyError, ZeroDivisionError):
            ok = False
        if ok and attempt(named(hint), name):
            return 'violation'
    if st == 'open':
        if case_split(list(pc) + list(hyps), goal, stats, nonneg, min(deadline, time.time() + 30)):
            return True
        # exact parameters for which the claim can fail, with sampled "nice" values
        fs = list(pc) + list(hyps) + [neg(goal)]
        r, env = solve_formula(fs, stats, nonneg, timeout=15000)
        if r == 'unsat':
            return True
        if r == 'sat':
            if attempt(named({a: v for a, v in env.items() if sym.Atom.order[a].kind in ('p', 'q')}), name):
                return 'violation'
        tried.append(r)
    for _ in range(4):
        if time.time() > deadline:
            break
        v = sample_params(pc, stats, rng)
        if v is not None and attempt(named(v), name):
            return 'violation'
    out['inconclusive'].append(f'{name}: {st} {tried} not reproduced')
    return False


def compare_models(ctx, env, nctx):
    """symbolic rows with the sampled parameters substituted vs the rows of the real Pyomo model"""
    pv = {a: Sym.const(x) for a, x in env.items()}
    if len(ctx.models) != len(nctx.models):
        return f'{len(ctx.models)} models vs {len(nctx.models)}'
    for m, nm in zip(ctx.models, nctx.models):
        memo = {}

        if not sub_fixed(m, pv):
            return 'a fixed variable depends on other variables'

        def canon(rows, sub):
            d = {}
            for l, rel, p in rows:
                q = sym.subst(p, pv, memo) if sub else p
                if sub and l.startswith('fix '):
                    continue
                ats = q.atoms()
                if not ats:
                    continue
                if l.startswith(('lb ', 'ub ')):
                    (a,) = ats
                    if a.kind == 'b' and (q == 0 or True):
                        c, k = q.t.get(((a.id, 1),)), q.const_value()
                        if (c > 0 and -k / c >= 1) or (c < 0 and k / -c <= 0):
                            continue
                lead = max(abs(c) for c in q.t.values())
                key = (rel, tuple(sorted((plain_name(sym.Atom.order[mm[0][0]].name) if mm else '', float(c / lead)) for mm, c in q.t.items())))
                d.setdefault(key[0], []).append(dict(key[1]))
            return d

        a, b = canon(m.rows, True), canon(nm.rows, False)
        for rel in set(a) | set(b):
            x, y = a.get(rel, []), b.get(rel, [])
            rest = list(y)
            for row in x:
                hit = None
                for j, r2 in enumerate(rest):
                    if same_row(row, r2) or (rel == '==' and same_row({k: -c for k, c in row.items()}, r2)):
                        hit = j
                        break
                if hit is None:
                    return f'row {row} {rel} 0 not in the real model'
                del rest[hit]
            if rest:
                return f'real row {rest[0]} {rel} 0 not in the symbolic model'
    return None


def sub_fixed(m, pv):
    """fixed variables are numbers in the real model"""
    for l, rel, p in m.rows:
        if l.startswith('fix '):
            name = l[4:]
            a = sym.Atom.table[name]
            rest = sym.subst(p - Sym.of(a), pv, {})
            if not rest.is_const():
                return False
            pv[a.id] = Sym.const(-rest.const_value())
    return True


def plain_name(s):
    """variable names carry a running number that depends on the order of translation"""
    return re.sub(r'__\d+(\[\d+\])$', r'\1', s)


def same_row(a, b):
    ks = {k for k, v in a.items() if abs(v) > 1e-12} | {k for k, v in b.items() if abs(v) > 1e-12}
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= 1e-7 for k in ks)
