"""A stand-in for ``pyomo.environ`` that records variables, constraints and objective symbolically."""
from . import sym
from .sym import Sym, SymBool, Unsupported, atom, conj

DECISION = ('v', 'b', 'i')
SERIAL = [0]  # models created on the current path; reset by the runner


class _Domain:
    def __init__(self, name, kind='v', lo=None, hi=None):
        self.name, self.kind, self.lo, self.hi = name, kind, lo, hi


Reals = Any = _Domain('Reals')
NonNegativeReals = _Domain('NonNegativeReals', lo=0)
NonPositiveReals = _Domain('NonPositiveReals', hi=0)
Binary = Boolean = _Domain('Binary', 'b')
Integers = _Domain('Integers', 'i')
NonNegativeIntegers = _Domain('NonNegativeIntegers', 'i', lo=0)
PercentFraction = UnitInterval = _Domain('UnitInterval', lo=0, hi=1)
minimize, maximize = 1, -1


class VarData(Sym):
    __slots__ = ('comp', 'index', 'lb', 'ub', 'fixed', '_value', 'atom', 'given')

    def __init__(self, comp, index, name, dom):
        a = atom(name, dom.kind)
        super().__init__(Sym.of(a).t)
        self.atom, self.comp, self.index = a, comp, index
        self.lb, self.ub, self.fixed, self._value, self.given = dom.lo, dom.hi, False, None, False

    def setlb(self, v):
        self.lb = v

    def setub(self, v):
        self.ub = v

    @property
    def lower(self):
        return self.lb

    @property
    def upper(self):
        return self.ub

    @property
    def bounds(self):
        return self.lb, self.ub

    @bounds.setter
    def bounds(self, v):
        self.lb, self.ub = v

    def fix(self, v=None, *a, **k):
        if v is not None:
            self._value = v
        self.fixed = True

    def set_value(self, v, *a, **k):
        self._value = v

    @property
    def value(self):
        return self._value if self.fixed or self.given else Sym(self.t)

    @value.setter
    def value(self, v):
        self._value = v

    @property
    def name(self):
        return self.atom.name


def _indices(args):
    if not args:
        return [None]
    if len(args) > 1:
        raise Unsupported('multi-index components')
    a = args[0]
    if isinstance(a, int):
        a = range(a)
    return list(a)


class Component:
    pass


class Var(Component):
    def __init__(self, *args, domain=None, within=None, bounds=None, initialize=None, **k):
        self.idx = _indices(args)
        self.dom = domain or within or Reals
        self.bounds_arg = bounds
        self.name = None
        self.data = None
        self._pending = []

    def _build(self, name, model):
        self.name = name
        full = f'{model._prefix}{name}'
        self.data = {i: VarData(self, i, f'{full}[{i}]' if i is not None else full, self.dom) for i in self.idx}
        if self.bounds_arg is not None:
            for i, d in self.data.items():
                b = self.bounds_arg(None, i) if callable(self.bounds_arg) else self.bounds_arg
                d.lb, d.ub = b

    def __getitem__(self, i):
        if self.data is None:
            raise Unsupported('access to a variable before it was added to the model')
        if i not in self.data:
            raise KeyError(f"Index '{i}' is not valid for indexed component '{self.name}'")
        return self.data[i]

    def __iter__(self):
        return iter(self.idx)

    def __len__(self):
        return len(self.idx)

    def keys(self):
        return list(self.idx)

    def values(self):
        return [self.data[i] for i in self.idx]

    def items(self):
        return [(i, self.data[i]) for i in self.idx]

    def index_set(self):
        return list(self.idx)

    def get_values(self, *a, **k):
        return {i: (d._value if d.fixed or d.given else Sym(d.t)) for i, d in self.data.items()}

    extract_values = get_values

    @property
    def value(self):
        return self.data[None].value


class Constraint(Component):
    Skip = ('skip',)
    Feasible = ('skip',)

    def __init__(self, *args, rule=None, expr=None, **k):
        self.idx = _indices(args)
        self.rule, self.expr = rule, expr
        self.rows = []

    def _build(self, name, model):
        self.name = name
        for i in self.idx:
            if self.rule is not None:
                e = self.rule(model, i) if i is not None else self.rule(model)
            else:
                e = self.expr
            model._rows.extend(make_rows(f'{name}[{i}]', e))


def make_rows(label, e):
    if e is Constraint.Skip:
        return []
    if isinstance(e, tuple):
        if len(e) == 3:
            lo, body, hi = e
            out = []
            if lo is not None and not sym.is_nonfinite(lo):
                out += make_rows(label, lo <= body)
            if hi is not None and not sym.is_nonfinite(hi):
                out += make_rows(label, body <= hi)
            return out
        return make_rows(label, e[0] == e[1])
    if isinstance(e, (bool,)) or e is None or type(e).__name__ == 'bool_':
        raise ValueError(f"Constraint '{label}' does not have a proper value. Found '{e}'\nExpecting a tuple or relational expression.")
    if not isinstance(e, SymBool) or e.op != 'cmp':
        raise Unsupported(f'constraint expression {e!r}')
    rel, p = e.a
    if rel == '<':
        raise ValueError('strict inequality in a constraint')
    # split by decision monomials: if every coefficient can vanish, pyomo sees a trivial relation
    groups = {}
    for m, c in p.t.items():
        d = tuple((a, x) for a, x in m if sym.Atom.order[a].kind in DECISION)
        if sum(x for _, x in d) > 1:
            raise Unsupported('nonlinear constraint')
        r = tuple((a, x) for a, x in m if sym.Atom.order[a].kind not in DECISION)
        g = groups.setdefault(d, {})
        g[r] = g.get(r, 0) + c
    coefs = [Sym(g) for d, g in groups.items() if d]
    if not coefs:
        raise ValueError(f"Constraint '{label}' does not have a proper value. Found a trivial Boolean")
    if not any(c.is_const() and c.const_value() != 0 for c in coefs):
        if bool(conj(*[c == 0 for c in coefs])):
            raise ValueError(f"Constraint '{label}' does not have a proper value. Found a trivial Boolean")
    return [(label, rel, p)]


class _Expr:
    def __init__(self, s, model):
        self.s, self.model = s, model

    def __call__(self, *a, **k):
        if any(d.given and d._value is None for v in self.model._comps.values() if isinstance(v, Var) for d in v.data.values()):
            raise ValueError('No value for uninitialized object')
        env = {d.atom.id: Sym.lift(d._value) for v in self.model._comps.values() if isinstance(v, Var)
               for d in v.data.values() if d.given}
        return sym.subst(self.s, env) if env else self.s


class Objective(Component):
    def __init__(self, rule=None, expr=None, sense=minimize, **k):
        self.rule, self._e, self.sense = rule, expr, sense

    def _build(self, name, model):
        e = self.rule(model) if self.rule is not None else self._e
        self.expr = _Expr(Sym.lift(e), model)
        model._objective = Sym.lift(e) * self.sense
        self.name = name

    def __call__(self):
        return self.expr()


class ConcreteModel:
    def __init__(self, name=None, **k):
        object.__setattr__(self, '_comps', {})
        object.__setattr__(self, '_prefix', f'm{SERIAL[0]}.')
        SERIAL[0] += 1
        object.__setattr__(self, '_rows', [])
        object.__setattr__(self, '_objective', None)

    def add_component(self, name, comp):
        if name in self._comps:
            raise RuntimeError(f"Attempting to declare a block component using the name of an existing attribute: {name}")
        self._comps[name] = comp
        object.__setattr__(self, name, comp)
        if isinstance(comp, Var):
            comp._build(name, self)
        else:
            comp._build(name, self)

    def component(self, name):
        return self._comps.get(name)

    def __setattr__(self, k, v):
        if isinstance(v, Component):
            if k in self._comps:
                del self._comps[k]
            self.add_component(k, v)
        else:
            object.__setattr__(self, k, v)

    def _all_rows(self):
        rows = list(self._rows)
        for c in self._comps.values():
            if not isinstance(c, Var):
                continue
            for d in c.data.values():
                s = Sym(d.t)
                if d.fixed:
                    rows.append((f'fix {d.name}', '==', s - d._value))
                    continue
                if d.lb is not None and not sym.is_nonfinite(d.lb):
                    rows.append((f'lb {d.name}', '<=', Sym.lift(d.lb) - s))
                if d.ub is not None and not sym.is_nonfinite(d.ub):
                    rows.append((f'ub {d.name}', '<=', s - d.ub))
        return rows


def value(x, *a, **k):
    return x() if callable(x) else x


def quicksum(xs, *a, **k):
    return sum(xs)


def inequality(lower=None, body=None, upper=None, strict=False):
    return (lower, body, upper)


def sum_product(a, b=None, index=None):
    raise Unsupported('sum_product')


class SolverFactory:
    def __init__(self, *a, **k):
        raise Unsupported('SolverFactory')
