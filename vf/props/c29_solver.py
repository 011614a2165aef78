from contextlib import contextmanager
from types import SimpleNamespace as NS

from flixOpt import math_modeling, solvers

from .. import pyostub
from ..core import Given
from ..files import files
from ..reg import grid, harness
from ..sym import Sym
from .common import *  # isort: skip
from .c24_files import flat, reported
from .c27_summary import system, values

# what the solvers themselves call the accepted gap and the limit of the time
NAMES = {
    'gurobi': dict(gap={'mipgap', 'MIPGap'}, time={'TimeLimit', 'timelimit'}),
    'cplex': dict(gap={'mipgap', 'mip_tolerances_mipgap'}, time={'timelimit'}),
    'cbc': dict(gap={'ratio', 'ratioGap'}, time={'sec', 'seconds'}),
    'glpk': dict(gap={'mipgap'}, time={'tmlim'}),
    'highs': dict(gap={'mip_rel_gap'}, time={'time_limit'}),
}
CLASSES = {'gurobi': 'GurobiSolver', 'cplex': 'CplexSolver', 'cbc': 'CbcSolver', 'glpk': 'GlpkSolver', 'highs': 'HighsSolver'}


class Results:
    """what the solvers report, in both forms pyomo knows"""

    def __init__(self, bound, optimal):
        from pyomo.opt import SolverStatus, TerminationCondition

        self.best_objective_bound = self.lower_bound = bound
        self.best_feasible_objective = None
        self.solver = NS(status=SolverStatus.ok if optimal else SolverStatus.aborted, termination_condition=TerminationCondition.optimal if optimal else TerminationCondition.maxTimeLimit,
                         termination_message='optimal' if optimal else 'time limit')
        self.problem = NS(lower_bound=bound)
        self.termination_condition = NS(name='optimal' if optimal else 'maxTimeLimit')

    def __getitem__(self, k):
        return [{'Lower bound': self.lower_bound, 'Status': 'ok'}]


@contextmanager
def backend(c, given, bound, seen, optimal=True):
    class Solver:
        def __init__(self, name=None, **k):
            self.name, self.options, self.highs_options, self.config = name or 'highs', {}, {}, NS()

        def available(self, *a, **k):
            return True

        def solve(self, model, **k):
            o = {**self.options, **self.highs_options, **k.get('options', {})}
            if 'timelimit' in k:
                o['timelimit'] = k['timelimit']
            seen.append(NS(name=self.name, model=model, options=o, tee=k.get('tee'), logfile=k.get('logfile', o.get('log_file'))))
            given.solve(NS(model=model))
            return Results(bound, optimal)

    class Pyo:
        SolverFactory = Solver

        def __getattr__(self, k):
            return getattr(old, k)

    from pyomo.contrib import appsi

    old, highs = math_modeling.pyo, appsi.solvers.Highs
    math_modeling.pyo, appsi.solvers.Highs = Pyo(), Solver
    try:
        yield
    finally:
        math_modeling.pyo, appsi.solvers.Highs = old, highs


@harness('C29', quick=grid(name=list(CLASSES), save=[True, False], optimal=[True, False]), bounds='all five solvers; 2 steps; any gap, time limit, bound and returned values')
def settings(c, name, save, optimal):
    fs = system(c, 'onoff', 2)
    gap, limit, bound = c.real('gap', 0, 1), c.real('limit', 1, 1000), c.real('bound', -100, 100)
    given, seen = Given(c, lo=0, hi=50), []
    with files(c) as d, backend(c, given, bound, seen, optimal):
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        kw = {} if name == 'glpk' else dict(time_limit_seconds=limit)
        s = getattr(solvers, CLASSES[name])(mip_gap=gap, solver_output_to_console=False, logfile_name=f'{d}/own.log', **kw)
        calc.solve(s, save_results=d if save else False)
        want = calc.results()
        log = f'{d}/calc_solver.log'
    c.holds('solved once by the chosen solver', len(seen) == 1 and seen[0].name == name)
    o, n = seen[0].options, NAMES[name]
    c.holds('the model is solved', seen[0].model is calc.system_model.model.model)
    for what, x in (('gap', gap), ('time', limit)):
        vals = [v for k, v in o.items() if k in n[what]]
        if what == 'gap' or name != 'glpk':
            c.holds(f'{what} is passed on', len(vals) >= 1)
            c.holds(f'{what} as chosen', conj(*[Sym.lift(v) == x for v in vals]))
    if save:
        c.holds('log file next to the results', str(seen[0].logfile) == log)
    c.holds('bound', Sym.lift(s.best_bound) == bound)
    c.holds('bound in the summary', Sym.lift(calc.system_model.main_results['lower bound']) == bound)
    c.holds('objective of the solver', Sym.lift(s.objective) == Sym.lift(want['Objective']))
    e, p = want['Effects'], want['Effects']['penalty']['penalty_sum']
    c.holds('objective of the returned values', Sym.lift(want['Objective']) == Sym.lift(e['costs']['operation']['operation_sum']) + e['costs']['invest']['invest_sum'] + p)
    reported(c, given, values(want))


@harness('C29', quick=grid(name=list(CLASSES), first=[True, False]), bounds='2 steps; the solver found nothing')
def nothing_found(c, name, first):
    """without a solution there are no results"""
    fs = system(c, 'onoff', 2)

    class Nothing(Given):
        def solve(self, ml):
            for v in ml.model._comps.values() if c.is_sym else ():
                for d in v.data.values() if hasattr(v, 'data') else ():
                    if isinstance(d, pyostub.VarData):
                        d.given = True  # and no value

    seen = []
    with files(c) as d, backend(c, Nothing(c), None, seen, False):
        calc = fx.FullCalculation('calc', fs)
        calc.do_modeling()
        s = getattr(solvers, CLASSES[name])(logfile_name=f'{d}/own.log')
        error = c.raises(lambda: calc.solve(s))
        c.holds('an error is raised', error)
        if not first:
            c.holds('again', c.raises(lambda: calc.solve(s)))
