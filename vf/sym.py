"""Symbolic reals for executing flixOpt's Python code.

A ``Sym`` is a polynomial with rational coefficients over *atoms*: input parameters, decision
variables of the optimisation model, reciprocals and if-then-else terms.  A ``SymBool`` is a formula
over polynomial comparisons.  ``bool()`` of a SymBool asks the current ``Explorer`` which branch to
follow, so ordinary Python control flow in the code under test forks the symbolic execution.
"""
import numbers
import sys
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np  # noqa: E402
import z3  # noqa: E402


class Unsupported(BaseException):
    """The code under test did something the symbolic engine cannot follow."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


CUR = None  # the active Explorer (set while code under test runs)


# ----------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('name', 'kind', 'lo', 'hi', 'data', 'id')
    table = {}
    order = []

    def __init__(self, name, kind, lo=None, hi=None, data=None):
        self.name, self.kind, self.lo, self.hi, self.data = name, kind, lo, hi, data
        self.id = len(Atom.order)
        Atom.order.append(self)

    def __repr__(self):
        return self.name


def atom(name, kind, lo=None, hi=None, data=None):
    """kinds: p (real parameter), q (0/1 parameter), v (continuous decision), b (0/1 decision),
    i (integer decision), inv (reciprocal of a polynomial), ite (if-then-else)"""
    a = Atom.table.get(name)
    if a is None:
        a = Atom(name, kind, lo, hi, data)
        Atom.table[name] = a
    elif a.kind != kind:
        raise AssertionError(f'atom {name} used with two kinds {a.kind} {kind}')
    return a


def reset_atoms():
    Atom.table.clear()
    Atom.order.clear()


BIN = ('q', 'b')


def snap(x):
    """the real number a float stands for: the simple fraction within rounding noise of it, if any"""
    f = Fraction(repr(x))
    g = f.limit_denominator(10**6)
    return g if abs(f - g) <= abs(f) * Fraction(1, 10**13) else f


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise OverflowError('non-finite')
        return snap(x)
    if isinstance(x, np.timedelta64):
        return Fraction(int(x / np.timedelta64(1, 'us')), 3600 * 10**6)
    raise TypeError(f'not a number: {x!r}')


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)) and not isinstance(x, Sym)


def is_nonfinite(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (float('inf'), float('-inf')))


def _mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    order = Atom.order
    out = []
    for a, e in d.items():
        at = order[a]
        if at.kind in BIN:
            e = 1
        out.append((a, e))
    out.sort()
    # inv atoms: inv(x) * x for a single-atom x cancels
    for a, e in out:
        at = order[a]
        if at.kind == 'inv' and at.data[1] is not None:
            base = at.data[1]
            dd = dict(out)
            if base in dd:
                k = min(e, dd[base])
                for z in (a, base):
                    dd[z] -= k
                    if dd[z] == 0:
                        del dd[z]
                return tuple(sorted(dd.items()))
    return tuple(out)


class Sym:
    __slots__ = ('t', '_k')
    __array_priority__ = 1000

    def __init__(self, terms):
        self.t = terms
        self._k = None

    # --- construction helpers
    @staticmethod
    def const(x):
        f = to_frac(x)
        return Sym({(): f} if f else {})

    @staticmethod
    def of(a):
        return Sym({((a.id, 1),): Fraction(1)})

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.to_sym()
        return Sym.const(x)

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {Atom.order[a] for m in self.t for a, _ in m}

    # --- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_nonfinite(o):
            return float(o)
        try:
            o = Sym.lift(o)
        except TypeError:
            return NotImplemented
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Sym(t)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_nonfinite(o):
            return -float(o)
        try:
            o = Sym.lift(o)
        except TypeError:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if is_nonfinite(o):
            return float(o)
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_nonfinite(o):
            return _inf_mul(self, o)
        try:
            o = Sym.lift(o)
        except TypeError:
            return NotImplemented
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mul_mono(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return Sym(t)

    __rmul__ = __mul__

    def reciprocal(self):
        if self.is_const():
            if self.const_value() == 0:
                raise ZeroDivisionError('division by zero')
            return Sym.const(1 / self.const_value())
        if bool(self == 0):
            raise ZeroDivisionError('division by zero')
        # normalise scale: pull out leading coefficient
        lead = self.key()[0][1]
        base = Sym({m: c / lead for m, c in self.t.items()})
        if len(base.t) == 1:
            (m, _), = base.t.items()
            out = Sym.const(1 / lead)
            for a, e in m:
                at = Atom.order[a]
                if at.kind == 'inv':
                    f = at.data[0]
                elif at.kind in BIN:
                    f = Sym.const(1)  # nonzero binary
                else:
                    f = Sym.of(atom(f'inv({at.name})', 'inv', data=(Sym.of(at), a)))
                for _ in range(e):
                    out = out * f
            return out
        ia = atom(f'inv<{poly_str(base)}>', 'inv', data=(base, None))
        return Sym.of(ia) * Sym.const(1 / lead)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_nonfinite(o):
            return Sym.const(0)
        try:
            o = Sym.lift(o)
        except TypeError:
            return NotImplemented
        return self * o.reciprocal()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_nonfinite(o):
            return _inf_mul(self.reciprocal(), o)
        return Sym.lift(o) * self.reciprocal()

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and n >= 0:
            r = Sym.const(1)
            for _ in range(int(n)):
                r = r * self
            return r
        if isinstance(n, (int, np.integer)):
            return (self ** (-n)).reciprocal()
        raise Unsupported(f'power {n!r}')

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __floordiv__(self, o):
        raise Unsupported('floor division on a symbolic number')

    def __mod__(self, o):
        raise Unsupported('modulo on a symbolic number')

    # --- comparison
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, (str, bytes, dict, list, tuple, set)):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise TypeError(f"'{op}' not supported between instances of 'float' and '{type(o).__name__}'")
        if is_nonfinite(o):
            v = float(o)
            return {'==': False, '!=': True, '<': v > 0, '<=': v > 0, '>': v < 0, '>=': v < 0}[op]
        try:
            d = self - Sym.lift(o)
        except TypeError:
            if op == '==':
                return False
            if op == '!=':
                return True
            raise TypeError(f"'{op}' not supported between instances of 'float' and '{type(o).__name__}'") from None
        return mk_cmp(d, op)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        from .npshim import to_int
        r = to_int(self)
        if isinstance(r, int):
            return r
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        if self.is_const() and self.const_value().denominator == 1:
            return int(self.const_value())
        raise Unsupported('symbolic index')

    def __round__(self, n=None):
        if self.is_const():
            return round(self.const_value(), n) if n is not None else round(self.const_value())
        if not n:
            from .npshim import to_int
            return to_int(self, 'rint')
        from .npshim import rounded
        return rounded(self, n)

    def __format__(self, spec):
        return poly_str(self)

    def __repr__(self):
        return poly_str(self)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar look-alikes
    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def is_integer(self):
        if self.is_const():
            return self.const_value().denominator == 1
        if conj(self >= 0, self <= 24):
            return disj(*[self == n for n in range(25)])
        raise Unsupported('is_integer of a symbolic number')

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.apply_ufunc(ufunc, method, inputs, kw)


numbers.Number.register(Sym)


def _inf_mul(s, inf):
    if s.is_const():
        c = s.const_value()
        return float(inf) * (1 if c > 0 else -1) if c else float('nan')
    if bool(s > 0):
        return float(inf)
    if bool(s < 0):
        return -float(inf)
    return float('nan')


def poly_str(s):
    if not s.t:
        return '0'
    parts = []
    for m, c in sorted(s.t.items()):
        f = '*'.join(Atom.order[a].name + (f'^{e}' if e > 1 else '') for a, e in m)
        cs = str(c) if c.denominator == 1 else f'{float(c):.12g}'
        parts.append((cs if not f else (f if c == 1 else f'{cs}*{f}')))
    return ' + '.join(parts)


# --------------------------------------------------------------------------------------- formulas
class SymBool:
    """op: 'cmp' (rel, Sym) meaning poly rel 0 with rel in <=,<,==,!= ; 'and','or' lists; 'not'"""

    __slots__ = ('op', 'a', '_k')
    __array_priority__ = 1000

    def __init__(self, op, a):
        self.op, self.a, self._k = op, a, None

    def key(self):
        if self._k is None:
            if self.op == 'cmp':
                self._k = ('cmp', self.a[0], self.a[1].key())
            elif self.op in ('and', 'or'):
                self._k = (self.op, tuple(sorted((x.key() for x in self.a), key=repr)))
            elif self.op == 'not':
                self._k = ('not', self.a.key())
            else:
                raise AssertionError(self.op)
        return self._k

    def __bool__(self):
        if CUR is None:
            raise Unsupported('branch on a symbolic condition outside an exploration')
        return CUR.decide(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return disj(self, o)

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __xor__(self, o):
        return disj(conj(self, neg(o)), conj(neg(self), o))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else neg(self)
        if isinstance(o, SymBool):
            return iff(self, o)
        return self.to_sym() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return neg(r)

    def __hash__(self):
        return hash(self.key())

    def to_sym(self):
        return ite(self, Sym.const(1), Sym.const(0))

    def __mul__(self, o):
        return self.to_sym() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.to_sym() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.to_sym() - o

    def __rsub__(self, o):
        return o - self.to_sym()

    def __neg__(self):
        return -self.to_sym()

    def __lt__(self, o):
        return self.to_sym() < o

    def __le__(self, o):
        return self.to_sym() <= o

    def __gt__(self, o):
        return self.to_sym() > o

    def __ge__(self, o):
        return self.to_sym() >= o

    def astype(self, *_a, **_k):
        return self.to_sym()

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def __int__(self):
        raise Unsupported('int() of a symbolic condition')

    def __repr__(self):
        return bool_str(self)

    def __format__(self, spec):
        return bool_str(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.apply_ufunc(ufunc, method, inputs, kw)


numbers.Number.register(SymBool)


def bool_str(b):
    if b is True or b is False:
        return str(b)
    if b.op == 'cmp':
        return f'({poly_str(b.a[1])} {b.a[0]} 0)'
    if b.op == 'not':
        return f'!{bool_str(b.a)}'
    return '(' + f' {b.op} '.join(bool_str(x) for x in b.a) + ')'


def mk_cmp(d, op):
    """d op 0"""
    if d.is_const():
        c = d.const_value()
        return {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
    if op == '>':
        d, op = -d, '<'
    elif op == '>=':
        d, op = -d, '<='
    # normalise scale
    k = d.key()
    lead = abs(k[0][1])
    if lead != 1:
        d = Sym({m: c / lead for m, c in d.t.items()})
    if op in ('==', '!='):
        if d.key()[0][1] < 0:
            d = -d
        if op == '!=':
            return neg(SymBool('cmp', ('==', d)))
    # a single 0/1 atom compared with 0 etc. is kept as is; the solver handles it
    return SymBool('cmp', (op, d))


def neg(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.op == 'not':
        return b.a
    if b.op == 'cmp' and b.a[0] == '<=':
        return SymBool('cmp', ('<', -b.a[1]))
    if b.op == 'cmp' and b.a[0] == '<':
        return SymBool('cmp', ('<=', -b.a[1]))
    if b.op == 'and':
        return disj(*[neg(x) for x in b.a])
    if b.op == 'or':
        return conj(*[neg(x) for x in b.a])
    return SymBool('not', b)


def as_bool(x):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, Sym):
        return x != 0
    if is_num(x):
        return x != 0
    raise Unsupported(f'truth value of {type(x)}')


def _nary(op, unit, xs):
    out, seen = [], set()
    for x in xs:
        x = as_bool(x)
        if isinstance(x, bool):
            if x == unit:
                continue
            return not unit
        for y in (x.a if x.op == op else [x]):
            k = y.key()
            if k not in seen:
                seen.add(k)
                out.append(y)
    for y in out:
        n = neg(y)
        if not isinstance(n, bool) and n.key() in seen:
            return not unit
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return SymBool(op, out)


def conj(*xs):
    return _nary('and', True, xs)


def disj(*xs):
    return _nary('or', False, xs)


def implies(a, b):
    return disj(neg(as_bool(a)), b)


def iff(a, b):
    a, b = as_bool(a), as_bool(b)
    return disj(conj(a, b), conj(neg(a), neg(b)))


def ite(c, a, b):
    c = as_bool(c)
    if isinstance(c, bool):
        return a if c else b
    if is_nonfinite(a) or is_nonfinite(b):
        return a if bool(c) else b
    a, b = Sym.lift(a), Sym.lift(b)
    if a.key() == b.key():
        return a
    if CUR is not None:
        known = CUR.known(c)
        if known is not None:
            return a if known else b
    at = atom(f'ite[{bool_str(c)}?{poly_str(a)}:{poly_str(b)}]', 'ite', data=(c, a, b))
    return Sym.of(at)


def smax(a, b):
    if hasattr(a, 'h'):  # durations, time stamps
        return type(a)(smax(a.h, b.h))
    if is_num(a) and is_num(b):
        return max(a, b)
    if is_nonfinite(a):
        return a if a > 0 else b
    if is_nonfinite(b):
        return b if b > 0 else a
    return ite(Sym.lift(a) >= b, a, b)


def smin(a, b):
    if hasattr(a, 'h'):  # durations, time stamps
        return type(a)(smin(a.h, b.h))
    if is_num(a) and is_num(b):
        return min(a, b)
    if is_nonfinite(a):
        return b if a > 0 else a
    if is_nonfinite(b):
        return a if b > 0 else b
    return ite(Sym.lift(a) <= b, a, b)


# ------------------------------------------------------------------------------- substitution/eval
def subst(s, env, memo=None):
    """Substitute atoms (by id) with Syms/numbers in a Sym or SymBool; descends into ite/inv."""
    memo = {} if memo is None else memo

    def at_val(aid):
        if aid in memo:
            return memo[aid]
        a = Atom.order[aid]
        if aid in env:
            r = Sym.lift(env[aid])
        elif a.kind == 'inv':
            base = sub_p(a.data[0])
            r = Sym.of(a) if base is a.data[0] else base.reciprocal()
        elif a.kind == 'ite':
            c = sub_b(a.data[0])
            x, y = sub_p(a.data[1]), sub_p(a.data[2])
            if isinstance(c, bool):
                r = x if c else y
            elif c is a.data[0] and x is a.data[1] and y is a.data[2]:
                r = Sym.of(a)
            else:
                r = Sym.lift(ite(c, x, y))
        else:
            r = None
        memo[aid] = r
        return r

    def sub_p(p):
        if all(at_val(a) is None or _same(at_val(a), a) for m in p.t for a, _ in m):
            return p
        out = {}
        for m, c in p.t.items():
            acc = None
            keep = []
            for a, e in m:
                v = at_val(a)
                if v is None or _same(v, a):
                    keep.append((a, e))
                else:
                    for _ in range(e):
                        acc = v if acc is None else acc * v
            mono = tuple(keep)
            if acc is None:
                n = out.get(mono, 0) + c
                if n:
                    out[mono] = n
                else:
                    out.pop(mono, None)
            else:
                for m2, c2 in acc.t.items():
                    mm = _mul_mono(mono, m2)
                    n = out.get(mm, 0) + c * c2
                    if n:
                        out[mm] = n
                    else:
                        out.pop(mm, None)
        return Sym(out)

    def _same(v, a):
        return v.t == {((a, 1),): 1}

    def sub_b(b):
        if isinstance(b, bool):
            return b
        if b.op == 'cmp':
            p = sub_p(b.a[1])
            return b if p is b.a[1] else mk_cmp(p, b.a[0])
        if b.op == 'not':
            x = sub_b(b.a)
            return b if x is b.a else neg(x)
        xs = [sub_b(x) for x in b.a]
        return conj(*xs) if b.op == 'and' else disj(*xs)

    if isinstance(s, (bool, np.bool_)):
        return bool(s)
    return sub_b(s) if isinstance(s, SymBool) else sub_p(Sym.lift(s))


def evalf(s, env, tol=0.0, want=True):
    """Evaluate with numbers. env: atom id -> number.  For SymBool, `tol` makes the evaluation
    lenient in favour of `want` (want=True: comparisons hold if within tol)."""
    cache = {}

    def at_val(aid):
        if aid in cache:
            return cache[aid]
        a = Atom.order[aid]
        if aid in env:
            r = env[aid]
        elif a.kind == 'inv':
            r = 1 / ev(a.data[0])
        elif a.kind == 'ite':
            r = ev(a.data[1]) if evb(a.data[0], 0, True) else ev(a.data[2])
        else:
            raise KeyError(a.name)
        cache[aid] = r
        return r

    def ev(p):
        tot = 0
        for m, c in p.t.items():
            x = c
            for a, e in m:
                x = x * at_val(a) ** e
            tot = tot + x
        return tot

    def scale(p):
        tot = 1
        for m, c in p.t.items():
            x = abs(c)
            for a, e in m:
                x = x * abs(at_val(a)) ** e
            tot = max(tot, x)
        return tot

    def evb(b, tol, want):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == 'cmp':
            v = ev(b.a[1])
            t = tol * float(scale(b.a[1])) if tol else 0
            rel = b.a[0]
            if want:
                return {'<=': v <= t, '<': v < t if not tol else v < t, '==': abs(v) <= t}[rel]
            return {'<=': v <= -t, '<': v < -t, '==': (v == 0) if not tol else False}[rel]
        if b.op == 'not':
            return not evb(b.a, tol, not want)
        rs = [evb(x, tol, want) for x in b.a]
        return all(rs) if b.op == 'and' else any(rs)

    if isinstance(s, SymBool) or isinstance(s, (bool, np.bool_)):
        return evb(s, tol, want)
    return ev(Sym.lift(s))


# -------------------------------------------------------------------------------------- z3 encoding
class Enc:
    """Encodes polynomials into z3.  lin=True: non-linear monomials become fresh reals
    (an over-approximation: unsat is conclusive)."""

    def __init__(self, lin):
        self.lin = lin
        self.memo = {}
        self.side = []  # definitional constraints, to be asserted by the user
        self.mono = {}
        self.nonneg = set()  # atom ids known >= 0
        self.has_nl = False

    def var(self, aid):
        r = self.memo.get(aid)
        if r is not None:
            return r
        a = Atom.order[aid]
        if a.kind in BIN:
            r = z3.Bool(a.name)
        elif a.kind == 'i':
            r = z3.Int(a.name)
        elif a.kind == 'ite':
            c, x, y = a.data
            r = z3.Real(f'@{a.id}')
            self.memo[aid] = r
            cz = self.b(c)
            self.side.append(z3.If(cz, r == self.p(x), r == self.p(y)))
            return r
        elif a.kind == 'inv':
            r = z3.Real(f'@{a.id}')
            self.memo[aid] = r
            base = a.data[0]
            if a.data[1] is not None:
                self.var(a.data[1])
                if a.data[1] in self.nonneg:
                    self.nonneg.add(aid)
            prod = Sym.of(a) * base if a.data[1] is None else None
            if prod is not None:
                self.side.append(self.p(prod) == 1)
            elif not self.lin:
                self.side.append(r * self.var(a.data[1]) == 1)
            else:
                bz = self.var(a.data[1])
                self.side.append(r != 0)
                self.side.append((r > 0) == (bz > 0))
            return r
        else:
            r = z3.Real(a.name)
        self.memo[aid] = r
        if a.lo is not None:
            if a.lo >= 0:
                self.nonneg.add(aid)
            self.side.append(r >= rv(a.lo))
        if a.hi is not None:
            self.side.append(r <= rv(a.hi))
        return r

    def mono_z3(self, m):
        """z3 term of a monomial without coefficient"""
        r = self.mono.get(m)
        if r is not None:
            return r
        bins, rest = [], []
        for a, e in m:
            if Atom.order[a].kind in BIN:
                bins.append(self.var(a))
            else:
                rest.append((a, e))
        if not rest:
            base = z3.RealVal(1)
        elif len(rest) == 1 and rest[0][1] == 1:
            base = self.var(rest[0][0])
            if z3.is_int(base):
                base = z3.ToReal(base)
        else:
            for a, _ in rest:
                self.var(a)
            self.has_nl = True
            key = tuple(rest)
            if self.lin:
                base = self.mono.get(('lin', key))
                if base is None:
                    base = z3.Real('@m' + '_'.join(f'{a}^{e}' for a, e in key))
                    self.mono[('lin', key)] = base
                    if all(a in self.nonneg or e % 2 == 0 for a, e in key):
                        self.side.append(base >= 0)
            else:
                base = None
                for a, e in key:
                    v = self.var(a)
                    if z3.is_int(v):
                        v = z3.ToReal(v)
                    for _ in range(e):
                        base = v if base is None else base * v
        r = z3.If(z3.And(*bins) if len(bins) > 1 else bins[0], base, z3.RealVal(0)) if bins else base
        self.mono[m] = r
        return r

    def p(self, s):
        terms = []
        for m, c in s.t.items():
            if not m:
                terms.append(rv(c))
            else:
                terms.append(self.mono_z3(m) if c == 1 else rv(c) * self.mono_z3(m))
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def b(self, f):
        if isinstance(f, (bool, np.bool_)):
            return z3.BoolVal(bool(f))
        if f.op == 'cmp':
            rel, s = f.a
            if rel == '==' or rel == '<=' or rel == '<':
                # 0/1 atom shortcuts
                if len(s.atoms()) == 1:
                    (at,) = s.atoms()
                    if at.kind in BIN:
                        v = self.var(at.id)
                        one = s.t.get(((at.id, 1),), Fraction(0)) + s.const_value()
                        zero = s.const_value()
                        h = {'==': lambda x: x == 0, '<=': lambda x: x <= 0, '<': lambda x: x < 0}[rel]
                        h1, h0 = h(one), h(zero)
                        if h1 and h0:
                            return z3.BoolVal(True)
                        if not h1 and not h0:
                            return z3.BoolVal(False)
                        return v if h1 else z3.Not(v)
                z = self.p(s)
                return {'==': lambda: z == 0, '<=': lambda: z <= 0, '<': lambda: z < 0}[rel]()
            raise AssertionError(rel)
        if f.op == 'not':
            return z3.Not(self.b(f.a))
        xs = [self.b(x) for x in f.a]
        return z3.And(*xs) if f.op == 'and' else z3.Or(*xs)


def rv(x):
    f = to_frac(x)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def z3_to_frac(v):
    if z3.is_true(v):
        return Fraction(1)
    if z3.is_false(v):
        return Fraction(0)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f'model value {v}')
