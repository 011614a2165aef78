"""Path exploration and solver queries."""
import random
import time
from fractions import Fraction

from . import sym
from .sym import Enc, PathAbort, Sym, Unsupported, conj, neg, z3


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.nl_queries = 0
        self.branches = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['solver_s'] = round(d['solver_s'], 3)
        return d


def check(solver, stats, *assump):
    t = time.time()
    try:
        r = solver.check(*assump)
    except z3.Z3Exception:
        r = z3.unknown
    stats.solver_s += time.time() - t
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
    elif r == z3.sat:
        stats.sat += 1
    else:
        stats.unknown += 1
    return r


class Explorer:
    """Runs a function repeatedly, following every feasible combination of branch outcomes."""

    def __init__(self, stats, max_paths=400, deadline=None, known_limit=2000):
        self.stats, self.max_paths, self.deadline = stats, max_paths, deadline
        self.work = [{}]
        self.truncated = False

    # -- per path state
    def _start(self, prefix):
        self.prefix = dict(prefix)
        self.lits = {}
        self.pc = []
        self.enc = Enc(True)
        self.s = z3.Solver()
        self.s.set('timeout', 4000)
        self.side_n = 0
        self.decided = dict()
        self.known_cache = {}

    def _assert(self, f):
        z = self.enc.b(f)
        self._flush()
        self.s.add(z)

    def _flush(self):
        while self.side_n < len(self.enc.side):
            self.s.add(self.enc.side[self.side_n])
            self.side_n += 1

    def _note_nonneg(self, f):
        if isinstance(f, sym.SymBool) and f.op == 'and':
            for x in f.a:
                self._note_nonneg(x)
        if isinstance(f, sym.SymBool) and f.op == 'cmp' and f.a[0] in ('<=', '<'):
            p = f.a[1]
            neg_terms = [(m, c) for m, c in p.t.items() if c < 0]
            if len(neg_terms) == 1 and all(c > 0 for m, c in p.t.items() if c >= 0):
                m, _ = neg_terms[0]
                # p = (nonneg stuff) - k*x <= 0  => x >= 0 if the rest is nonneg
                rest_ok = all(m2 == () or all(a in self.enc.nonneg for a, _ in m2) for m2, c2 in p.t.items() if c2 > 0)
                if rest_ok and len(m) == 1 and m[0][1] == 1:
                    self.enc.nonneg.add(m[0][0])
                    b = sym.Atom.order[m[0][0]]
                    inv = sym.Atom.table.get(f'inv({b.name})')
                    if inv:
                        self.enc.nonneg.add(inv.id)

    def assume(self, f):
        f = sym.as_bool(f)
        if isinstance(f, bool):
            if not f:
                raise PathAbort('assumption false')
            return
        self._note_nonneg(f)
        self.pc.append(f)
        self.lits[f.key()] = True
        if f.op == 'and':
            for x in f.a:
                self.lits[x.key()] = True
        self._assert(f)
        self.known_cache.clear()

    def _lookup(self, c):
        k = c.key()
        if k in self.lits:
            return self.lits[k]
        n = neg(c)
        if n.key() in self.lits:
            return not self.lits[n.key()]
        return None

    def _nl_possible(self, c):
        """second opinion with exact products"""
        e = Enc(False)
        s = z3.Solver()
        s.set('timeout', 3000)
        zs = [e.b(f) for f in self.pc] + [e.b(c)]
        for x in e.side:
            s.add(x)
        for z in zs:
            s.add(z)
        self.stats.nl_queries += 1
        return check(s, self.stats) != z3.unsat

    def _feasible(self, c, exact=True):
        z = self.enc.b(c)
        self._flush()
        r = check(self.s, self.stats, z) if z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        if r is None:
            self.s.push()
            self.s.add(z)
            r = check(self.s, self.stats)
            self.s.pop()
        if r == z3.unsat:
            return False
        if exact and self.enc.has_nl:
            return self._nl_possible(c)
        return True

    def known(self, c):
        """is c decided by the path condition? (used to simplify if-then-else)"""
        r = self._lookup(c)
        if r is not None:
            return r
        k = c.key()
        if k in self.known_cache:
            return self.known_cache[k]
        if not self._feasible(c, exact=False):
            r = False
        elif not self._feasible(neg(c), exact=False):
            r = True
        else:
            r = None
        self.known_cache[k] = r
        return r

    def decide(self, c):
        self.stats.branches += 1
        r = self._lookup(c)
        if r is not None:
            return r
        if self.deadline and time.time() > self.deadline:
            self.truncated = True
            raise PathAbort('deadline')
        k = c.key()
        if k in self.prefix:
            r = self.prefix[k]
        elif neg(c).key() in self.prefix:
            r = not self.prefix[neg(c).key()]
        else:
            ft = self._feasible(c)
            ff = self._feasible(neg(c))
            if not ft and not ff:
                raise PathAbort('infeasible path')
            if ft and ff:
                alt = dict(self.decided)
                alt[k] = False
                self.work.append(alt)
                r = True
            else:
                r = ft
                self.lits[k] = r
                return r
        self.decided[k] = r
        f = c if r else neg(c)
        self.lits[k] = r
        self.pc.append(f)
        self._note_nonneg(f)
        self._assert(f)
        self.known_cache.clear()
        return r

    def run(self, fn, on_path):
        """fn() is executed once per path; on_path(explorer, outcome) after each.
        outcome: ('ok', value) | ('exc', exception) """
        while self.work:
            if self.stats.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.truncated = True
                return
            prefix = self.work.pop()
            self._start(prefix)
            sym.CUR = self
            try:
                try:
                    out = ('ok', fn())
                except PathAbort:
                    out = None
                except Unsupported:
                    raise
                except RecursionError as e:
                    raise Unsupported(f'recursion: {e}') from e
                except Exception as e:
                    out = ('exc', e)
                if out is not None:
                    self.stats.paths += 1
                    on_path(self, out)
            finally:
                sym.CUR = None


# ------------------------------------------------------------------------------------- proving
def products(formulas, wanted, limit=400):
    """Products of pairs of known non-negative polynomials (valid consequences), kept when they talk
    about the wanted nonlinear monomials; helps the linear relaxation."""
    pos, par = [], []
    for f in formulas:
        for x in (f.a if isinstance(f, sym.SymBool) and f.op == 'and' else [f]):
            if isinstance(x, sym.SymBool) and x.op == 'cmp' and x.a[0] in ('<=', '<'):
                p = -x.a[1]
                if len(p.t) <= 6 and all(sum(e for _, e in m) <= 3 for m in p.t):
                    pos.append(p)
                    if len(p.t) <= 3 and all(a.kind in ('p', 'q', 'inv') for a in p.atoms()):
                        par.append(p)
    watoms = {a for m in wanted for a, _ in m}
    for aid in watoms:  # bounds of the atoms themselves
        a = sym.Atom.order[aid]
        for b in ([Sym.of(a) - a.lo] if a.lo is not None else []) + ([a.hi - Sym.of(a)] if a.hi is not None else []):
            pos.append(b)
            if a.kind in ('p', 'q', 'inv'):
                par.append(b)
    out = []
    for i, p in enumerate(par):
        for q in pos:
            r = p * q
            nl = [m for m in r.t if sum(e for _, e in m) > 1]
            if nl and all(m in wanted for m in nl):
                out.append(r)
                if len(out) > limit:
                    return out
    return out


def nl_monos(fs):
    res = set()

    def go(f):
        if isinstance(f, sym.SymBool):
            if f.op == 'cmp':
                for m in f.a[1].t:
                    if sum(e for _, e in m) > 1:
                        res.add(m)
            elif f.op == 'not':
                go(f.a)
            else:
                for x in f.a:
                    go(x)

    for f in fs:
        go(f)
    return res


def flatten(fs):
    out = []
    for f in fs:
        if isinstance(f, sym.SymBool) and f.op == 'and':
            out.extend(flatten(f.a))
        else:
            out.append(f)
    return out


def solve_formula(fs, stats, nonneg=(), timeout=20000, exact=True, want_model=False, seed=1):
    """Decide satisfiability of the conjunction fs.  Returns (result, env) with result in
    'unsat','sat','unknown'.  'sat' only from an exact encoding (env: atom id -> Fraction)."""
    fs = flatten(fs)
    if any(isinstance(f, bool) and not f for f in fs):
        return 'unsat', None
    fs = [f for f in fs if not isinstance(f, bool)]
    # phase 1: linear relaxation
    e = Enc(True)
    e.nonneg = set(nonneg)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('random_seed', seed)
    zs = [e.b(f) for f in fs]
    for x in e.side:
        s.add(x)
    for z in zs:
        s.add(z)
    r = check(s, stats)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat and not e.has_nl:
        return 'sat', model_env(s.model(), e)
    if e.has_nl:
        wanted = nl_monos(fs)
        lem = products(fs, wanted)
        if lem:
            zl = [e.p(p) >= 0 for p in lem]
            for x in e.side:
                s.add(x)
            for z in zl:
                s.add(z)
            r = check(s, stats)
            if r == z3.unsat:
                return 'unsat', None
    if not exact:
        return 'unknown', None
    # phase 2: exact products
    stats.nl_queries += 1
    e = Enc(False)
    s = z3.Solver()
    s.set('timeout', timeout)
    zs = [e.b(f) for f in fs]
    for x in e.side:
        s.add(x)
    for z in zs:
        s.add(z)
    r = check(s, stats)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        try:
            return 'sat', model_env(s.model(), e)
        except Unsupported:
            return 'unknown', None
    return 'unknown', None


def model_env(m, e):
    env = {}
    for aid, v in e.memo.items():
        a = sym.Atom.order[aid]
        if a.kind in ('ite', 'inv'):
            continue
        env[aid] = sym.z3_to_frac(m.eval(v, model_completion=True))
    return env


NICE = [Fraction(0), Fraction(1), Fraction(2), Fraction(3), Fraction(5), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4),
        Fraction(9, 10), Fraction(1, 10), Fraction(10), Fraction(4), Fraction(7), Fraction(20), Fraction(6), Fraction(100)]


def sample_params(pc, stats, rng, tries=14, model=None):
    """A 'nice' random assignment of the parameters satisfying the path condition (exact), for which
    the model (if given) has a solution."""
    if model is not None:
        pc = list(pc) + flatten(model.formulas())
        if any(isinstance(f, bool) and not f for f in pc):
            return None
        pc = [f for f in pc if not isinstance(f, bool)]
    atoms = set()

    def go(f):
        if isinstance(f, sym.SymBool):
            if f.op == 'cmp':
                gp(f.a[1])
            elif f.op == 'not':
                go(f.a)
            else:
                for x in f.a:
                    go(x)

    def gp(p):
        for a in p.atoms():
            if a.kind == 'ite':
                go(a.data[0]), gp(a.data[1]), gp(a.data[2])
            elif a.kind == 'inv':
                gp(a.data[0])
            else:
                atoms.add(a)

    for f in pc:
        go(f)
    atoms |= {a for a in sym.Atom.order if a.kind in ('p', 'q')}
    params = sorted((a for a in atoms if a.kind in ('p', 'q')), key=lambda a: a.id)
    rng.shuffle(params)
    e = Enc(False)
    s = z3.Solver()
    s.set('timeout', 4000)
    zs = [e.b(f) for f in pc]
    pv = {a: e.var(a.id) for a in params}
    for x in e.side:
        s.add(x)
    for z in zs:
        s.add(z)
    if check(s, stats) != z3.sat:
        return None
    for a in params:
        if a.kind == 'q':
            v = rng.choice([True, False])
            s.push()
            s.add(pv[a] == z3.BoolVal(v))
            if check(s, stats) != z3.sat:
                s.pop()
            continue
        cands = NICE[:]
        lo, hi = a.lo, a.hi
        cands = [c for c in cands if (lo is None or c >= lo) and (hi is None or c <= hi)]
        rng.shuffle(cands)
        for c in cands[:4]:
            s.push()
            s.add(pv[a] == sym.rv(c))
            if check(s, stats) == z3.sat:
                break
            s.pop()
    if check(s, stats) != z3.sat:
        return None
    m = s.model()
    return {a.id: sym.z3_to_frac(m.eval(pv[a], model_completion=True)) for a in params}
