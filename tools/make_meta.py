#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 tools/make_meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, note=note, na=na))


E, F, C, X, S, M, K, R, A, L, I, T, U = (f'flixOpt/{x}.py' for x in (
    'elements', 'features', 'components', 'effects', 'structure', 'math_modeling', 'calculation', 'results', 'aggregation',
    'linear_converters', 'interface', 'core', 'utils'))
FS = 'flixOpt/flow_system.py'

prop('C01', 'Energy balance at every bus and time step',
     'At every bus and every time step, the rates of all flows feeding the bus add up to the rates of all flows drawing from it. '
     'A bus with a stated excess penalty may in addition take in or give off a non-negative excess, reported per step, that closes the gap; '
     'a bus with the penalty set to none never can. '
     'Nothing beyond this ties the flows at a bus together.',
     ['inputs', 'configurations'], 'all solutions of the generated optimisation model, all flow sizes, step durations and penalties, any number of connected flows within the bound',
     'Tests compare one optimum of a few hand-made systems; a missing or doubled term only matters for solutions that are not that optimum.',
     [E, FS, M], [('balance equation of a bus', E), ('registration of flows at buses', E)], ['flow rates and excess values in the results'])
prop('C02', 'Flow rates stay inside their size-scaled limits',
     'For a flow without on/off behaviour and with a given size, the rate in every step lies between relative minimum times size and relative maximum times size of that step, '
     'or equals the fixed profile of that step times the size if a profile is given. '
     'Limits may be numbers, arrays or time-series data; every rate inside them is possible as far as this flow is concerned.',
     ['inputs', 'configurations'], 'all sizes, limits and profiles (scalar, array, time-series data), all solutions',
     'Tests use constant limits on optima that rarely touch them; a limit applied to the wrong step or the wrong flow goes unnoticed.',
     [E, M, T], [('absolute flow-rate bounds', E), ('variable bounds in the translation', M)], ['flow rates in the results'])
prop('C03', 'Flow-hour totals and load factors',
     'The flow hours reported for a flow equal the sum over all steps of its rate times the step duration, and stay within the stated minimum and maximum totals. '
     'With load-factor limits, they lie between minimum and maximum load factor times size times the total duration of the horizon, where the size is the invested one if the size is optimised. '
     'Nothing else restricts the total.',
     ['inputs', 'configurations'], 'all limits, sizes, step durations (equal or not), all solutions',
     'Tests use hourly steps where hours and steps coincide and totals that are slack.',
     [E, S], [('flow-hour sum', E), ('load-factor limits', E)], ['flow hours in the results'])
prop('C04', 'On/off state agrees with the flow rate',
     'A flow with on/off behaviour is in every step either off with rate zero or on with a positive rate between its size-scaled minimum and maximum; a component with on/off behaviour is off exactly when all of its flows are zero. '
     'The reported on-hours equal the durations of the on-steps added up and respect the stated minimum and maximum, and each on-hour causes exactly the stated running effects. '
     'Every on/off pattern compatible with the stated limits is possible.',
     ['inputs', 'configurations'], 'all on/off patterns and rates, all sizes, limits, step durations and effect rates',
     'The pattern space is exponential and tests see the one optimal pattern; big-M style errors cut off or admit other patterns.',
     [F, E, I], [('on/off constraints', F), ('running effects', F)], ['on states, on-hours and effect shares in the results'])
prop('C05', 'Starts and stops are counted exactly',
     'In every step a start is reported if and only if the unit is on now and was off in the step before, a stop if and only if it is off now and was on before; for the first step the state before the horizon, taken from the given previous rates (off if none are given), counts as the step before. '
     'The reported number of starts is the number of start steps and respects the stated maximum, and each start causes exactly the stated effects in its step.',
     ['inputs', 'histories', 'configurations'], 'all on/off patterns, all previous rates, all effect values and limits',
     'Tests cover single patterns without history; off-by-one steps and a forgotten first step survive them.',
     [F, I], [('switch constraints', F), ('previous on state', F)], ['start and stop indicators, number of starts, effect shares'])
prop('C06', 'Minimum and maximum run and idle times',
     'A run (idle) phase that ends within the horizon is at least as long as the stated minimum number of hours of its last step, no run (idle) phase is ever longer than the stated maximum, and the reported phase length in a step is the hours since the phase began. '
     'Hours follow the actual step durations and the limits may differ per step. '
     'Every on/off pattern that respects the limits is possible.',
     ['inputs', 'histories', 'configurations'], 'all on/off patterns, step durations, limits (scalar or per step) and previous phase lengths',
     'Tests use hourly steps, one limit and one optimum; mixing steps with hours or cutting off allowed patterns needs others.',
     [F, I], [('phase-length constraints', F)], ['on states and phase lengths in the results'])
prop('C07', 'History before the horizon is carried in correctly',
     'The length of the phase a unit is in when the horizon starts is the total duration of the trailing run of equal on (off) states in the given previous rates: zero if the last previous state is the other one, and all of it if there was never a change; a component counts as on in a previous step if any of its flows was. '
     'Without previous rates a unit counts as off for one step. '
     'The duration of previous steps is the one given for the system (a number or one per previous step), by default the first step duration.',
     ['inputs', 'histories'], 'all previous on/off patterns up to the bound, scalar or array previous rates, scalar or array previous durations, several flows per component',
     'Tests use at most one hand-picked history, mostly ending in the middle of a phase.',
     [F, FS, S], [('trailing phase duration', F), ('previous on values', F)], ['first-step behaviour and reported phase lengths'])
prop('C08', 'Mutually exclusive flows never run together',
     'Of the flows a component declares as mutually exclusive, at most one is non-zero in any step; this holds in particular for charging against discharging of a storage and for buying against selling of a combined source and sink unless that is switched off. '
     'Each of them alone, or none, remains possible within its own limits.',
     ['inputs', 'configurations'], 'all patterns of two to four exclusive flows, all sizes and limits',
     'An optimum rarely wants both flows, so tests pass without the restriction.',
     [F, E, C], [('exclusive-use constraint', F), ('automatic on/off behaviour of exclusive flows', E)], ['flow rates in the results'])
prop('C09', 'Invested sizes respect their bounds and scale the limits',
     'The size of a flow or storage with an investment decision is the stated fixed size, or lies within the stated minimum and maximum; if the investment is optional, it may instead be zero, reported as not invested, whatever the limits. '
     'In every step the rate (or charge) of the unit is limited by its relative limits, or set by its profile, times the chosen size, also combined with on/off behaviour. '
     'Every such size is possible.',
     ['inputs', 'configurations'], 'all size bounds, fixed sizes, optional or not, relative limits and profiles, with and without on/off behaviour, all solutions',
     'Tests size one unit per case at an optimum; bounds that are inactive there are not seen.',
     [F, E, C, I], [('investment bounds', F)], ['sizes, investment indicators and flow rates in the results'])
prop('C10', 'Investment effects follow the investment decision',
     'The investment part of every effect equals, summed over all investments, the fixed effects if invested, plus the specific effects times the size, plus the divestment effects if an optional investment is not made, plus the piecewise effects of the size. '
     'Piecewise effects are the linear interpolation within one of the given segments, and zero if an optional investment is not made; the size then lies in one of the segments.',
     ['inputs', 'configurations'], 'all effect values, sizes, segments, optional or not, one or two effects, one or two investments',
     'Tests check the objective of single cases; swapped or doubled shares cancel or vanish there.',
     [F, X, I], [('investment shares', F), ('segment model', F)], ['investment effects in the results'])
prop('C11', 'Linear converters keep their conversion equations',
     'In every step, for every conversion equation of a converter, the input flows weighted with their factors add up to the output flows weighted with theirs, using the factors of that step. '
     'The predefined boilers, heaters, heat pumps, cooling towers and combined heat and power units obey their stated efficiencies: fuel times efficiency is heat (or heat and power), heat is coefficient of performance times power with the rest drawn from the source, tower power is specific demand times heat. '
     'Flows not bound by an equation stay free within their limits.',
     ['inputs', 'configurations'], 'all factors (scalar, array, time-series data), all solutions, one to three equations',
     'Tests fix scalar efficiencies in one system; time-dependent factors and other unit types are hardly used.',
     [C, L], [('conversion equations', C), ('predefined units', L)], ['flow rates in the results'])
prop('C12', 'Piecewise-linear converters stay on their segments',
     'In every step the flows of a converter with segments lie together on one of the stated segments, that is each flow is the same interpolation between the end points of that segment, with end points that may differ per step; if the converter may be off, all of them may be zero instead while it is off. '
     'Every point of every segment is possible.',
     ['inputs', 'configurations'], 'all segment end points (scalar or per step), one to three segments, all solutions, with and without on/off behaviour',
     'Tests look at one optimum on one segment.',
     [C, F], [('segment model', F), ('converter with segments', C)], ['flow rates in the results'])
prop('C13', 'Storage charge balance and charge limits',
     'From one point in time to the next, the charge of a storage is the previous charge times (1 minus the hourly loss times the step duration) plus charging times charging efficiency times duration minus discharging divided by discharging efficiency times duration. '
     'At every point in time the charge lies within its relative limits times the capacity, where the limits of the last step also hold at the end unless a value for the end is given, and every trajectory within these rules is possible.',
     ['inputs', 'configurations'], 'all capacities, efficiencies, losses, limits (scalar or per step), step durations and rates',
     'Tests have constant parameters and hourly steps, where duration factors are invisible.',
     [C], [('charge balance', C), ('charge limits', C)], ['charge state and flow rates in the results'])
prop('C14', 'Storage start and end conditions',
     'The charge at the start of the horizon equals the given start value, or equals the charge at the end of the horizon if the cyclic option is chosen, or is free if none is given. '
     'The charge at the very end of the horizon lies within the stated final minimum and maximum. '
     'Everything in between is only bound by the balance.',
     ['inputs', 'configurations'], 'all start values and final limits, fixed and invested capacities, all trajectories',
     'Tests use one start value and look at the optimum.',
     [C], [('start and end conditions', C)], ['charge state in the results'])
prop('C15', 'Transmission lines deliver what enters minus losses',
     'What leaves a transmission in a direction equals what enters in that direction times one minus the relative loss, minus the absolute loss whenever the line carries anything in that direction; both hold per step. '
     'Opposite directions are not used together if that is forbidden, and with an optimised size both directions have the same size.',
     ['inputs', 'configurations'], 'all losses (scalar or per step, zero included), sizes and directions, all solutions',
     'Tests fix loss values and directions.',
     [C], [('transmission equations', C)], ['flow rates in the results'])
prop('C16', 'Effects add up to what their sources cause',
     'For every effect, the operation part in each step is the sum of everything elements cause in that step (rate times duration times effect per flow hour, with per-step values applied to their step) plus the stated shares of other effects, the totals are the sums over time, and the total effect is operation plus investment. '
     'All stated limits on operation, investment, totals and per-hour values hold for these sums.',
     ['inputs', 'configurations'], 'all effect rates, shares between effects, step durations and limits, two or three effects',
     'Tests check one total; per-step attribution, cross shares and limits that are not active are not seen.',
     [X, F, S], [('effect models', X), ('share allocation', F)], ['effects in the results'])
prop('C17', 'The objective is the objective effect plus penalties',
     'The minimised quantity is the total of the objective effect plus all penalties, nothing else, and the reported objective is its value. '
     'The penalty is the excess at all buses, in either direction, times the penalty rate of the step times the step duration.',
     ['inputs', 'configurations'], 'all solutions, penalties (scalar or per step), step durations and effect values',
     'Tests compare single objective values of systems that never use the excess.',
     [X, E, M], [('objective', X), ('penalty shares', E)], ['objective value and penalty in the results'])
prop('C18', 'The equations built are the equations solved',
     'Every equation and inequality a user adds to a model is handed to the solver with exactly the given factors, variable indices and constants: elementwise sums, single-index summands applied to all rows, and summands that are to be summed up over the given indices. '
     'Variable bounds, fixed values and integrality are handed over unchanged, and solution values come back to the variable and index they belong to.',
     ['inputs', 'configurations'], 'all coefficient values, index subsets within the bound, scalar and vector factors, constants and bounds',
     'The translation is only exercised through the shapes existing elements use.',
     [M, U], [('translation to the modelling language', M), ('summands and constraints', M)], ['solver model rows, variable results'])
prop('C19', 'Step durations and horizon follow the given time stamps',
     'Each step lasts from its time stamp to the next, the last one as long as stated or as the one before it, and the total duration is their sum; the time axis with end point has one point more than steps. '
     'The reported step durations and time stamps are those used in the model.',
     ['inputs', 'configurations'], 'all (equal or unequal) increasing time stamps within the bound, with and without a stated last duration and previous durations',
     'Tests use equidistant hourly stamps.',
     [FS, S], [('time series of the system', FS)], ['time data in the results'])
prop('C20', 'Selecting time steps equals building the smaller system',
     'Modelling a selection of consecutive time steps of a system gives exactly the same set of solutions and the same objective as modelling a system built from only those steps\' data, with the step durations of the full system. '
     'Modelling the full system afterwards, or again, is unaffected by earlier selections.',
     ['inputs', 'configurations', 'histories'], 'all windows, all per-step data of flows, buses, effects, converters, on/off limits and storages',
     'Tests run at most one window and compare a single objective.',
     [S, T, K], [('activation of time indices', S), ('active data', T)], ['all results'])
prop('C21', 'Segmented runs hand over state and cover the horizon',
     'A segmented calculation covers every selected time step exactly once in its combined results, in order, with each segment modelling the stated number of steps plus overlap (never beyond the end of the horizon or selection). '
     'Each later segment starts from the charge states and the last flow rates that the previous segment has at the first time step of the later one; the first segment starts from the values given by the user, and after the run, completed or failed, the original start values are restored.',
     ['inputs', 'configurations', 'histories'], 'all horizon, segment and overlap lengths within the bound, all solver outcomes of earlier segments',
     'Tests run one combination of lengths and look at totals.',
     [K, E, C], [('transfer of start values', K), ('segment indices', K)], ['segment models and combined results'])
prop('C22', 'Aggregated periods behave alike',
     'In an aggregated calculation the selected variables take the same value at the same position (other than the first) of every two periods that belong to the same typical period, except for explicitly allowed deviations of binary variables, whose number per variable is limited to the stated share of the equated values and penalised as stated. '
     'Nothing else is restricted, and time-series data is replaced by the aggregated values with the stated weights.',
     ['inputs', 'configurations'], 'all assignments of periods to typical periods within the bound, all solutions, with and without deviations',
     'Tests use one clustering and look at the objective.',
     [A, K], [('equating of variables', A)], ['aggregated model and results'])
prop('C23', 'Modelling again gives the same model',
     'Setting up and modelling a calculation repeatedly on the same system, or several calculations one after another, gives models with the same solutions and objective each time. '
     'Adding elements piece by piece or at once, and in any order, gives the same model as well.',
     ['histories', 'configurations'], 'all parameter values, all solutions of both models',
     'Tests model every system once.',
     [S, FS, E, T], [('reuse of transformed data', S), ('registration of elements', FS)], ['all results'])
prop('C24', 'Saved results load back unchanged',
     'The results of a calculation that were saved to disk and loaded again hold the same values for every element, effect and the time axis as the calculation reported, at the same names. '
     'On/off values are the rounded 0/1 values the solver returned.',
     ['inputs', 'configurations'], 'all result values, all kinds of elements and result shapes',
     'Tests do not compare saved and reported values.',
     [K, R, U], [('saving', K), ('loading', R)], ['result files'])
prop('C25', 'Result tables show the values of the results',
     'The table made from saved results of a component or bus has a column for each of its flows (for a bus also its excess), holding the reported rate of every step at its time stamp, with inputs negative and outputs positive unless other signs are asked for; '
     'a side that is switched off is left out, columns whose magnitude never exceeds the threshold are dropped and no others, and with the end of the horizon included the last value is repeated. '
     'The table of a single flow, the data given to plots, the flat names of all results and what is picked out by a path of names hold the same reported values; nothing is lost, doubled or shifted.',
     ['inputs', 'configurations'], 'all result values and thresholds, all option combinations within the bound',
     'Tests do not evaluate result tables.',
     [R], [('result access', R)], ['data frames'])
prop('C26', 'Elements are registered once and names stay distinct',
     'Every component, bus and effect added to a system takes part in the model exactly once under its own name; adding a second element of the same name, two flows of one component with the same name, or a name under which results would hide other results, is refused and leaves the system as it was. '
     'Distinct names are accepted, and which names are used makes no difference to the model. '
     'At most one effect is the standard and one the objective effect.',
     ['inputs', 'configurations'], 'all coincidences of names among elements within the bound and all registration orders',
     'Tests only build well-formed systems.',
     [FS, S, X, E], [('uniqueness checks', FS)], ['errors on registration, result names'])

prop('C27', 'Reported summary agrees with the solution',
     'The main results of a calculation, in memory and in the saved info file, are those of the solution: per effect the operation, investment and total amounts of the effects, the penalty, objective value and bound of the solver, '
     'the buses whose excess exceeds the threshold in any step, and for every optional or sized investment whether and at which size it was made. '
     'Solving a calculation again (full, aggregated or segmented) replaces all results by those of the new solution.',
     ['inputs', 'configurations', 'histories'], 'all solution values of the generated models and up to two successive solutions',
     'Tests read single values of the results, never the summary, and solve every calculation once.',
     [S, K, R, FS], [('main results', S), ('results of a calculation', K)], ['main results, info files, results of a second solution'])
prop('C28', 'Saved description states the system that was modelled',
     'The saved description of a system names every bus, component, flow and effect and, for each argument given, its value (in the compact form within its stated rounding or as statistics of that series); arguments left out are at their defaults. '
     'Connections are stated with the direction in which the flow runs, and the network graph has one node per bus and component and one edge per flow.',
     ['inputs', 'configurations'], 'all argument values, all kinds of elements, description before and after modelling, in memory and in the saved file',
     'Tests never read the description.',
     [FS, S, E, C, X, I], [('collecting descriptions', S), ('network', FS)], ['description of the system, saved info files, network nodes and edges'])
prop('C29', 'Solver gets the chosen settings and its answers are reported as given',
     'The solver that was chosen is called with the gap, time limit and other options the user chose; objective value, bound and all values reported are those the solver returned for this model; '
     'where the solver found no solution no results are reported.',
     ['inputs', 'configurations', 'faults'], 'all settings, all returned values and all outcomes of the solver',
     'Tests use one solver with one setting, and it always finds the optimum.',
     [M, 'flixOpt/solvers.py', K], [('solvers', 'flixOpt/solvers.py'), ('solving', M)], ['options of the solver, reported results'])
prop('C30', 'Inconsistent input is refused, consistent input is not',
     'A calculation of all time steps refuses series whose length does not fit the time steps; lower limits above upper limits in any step, time that runs backwards, too many or foreign conversion factors, conversion factors together with segments, segments together with a size that is to be chosen, '
     'transmissions that lead back from or to other buses or invest in flows other than the first, effects that are used but not part of the system, two standard or objective effects, unknown initial charge states, '
     'segments of two steps or longer than the horizon, and aggregation of steps of different length or with periods that are no multiple of the steps are refused when they are stated or modelled. Input without these faults is not refused.',
     ['inputs', 'configurations'], 'all values of the inputs and each fault at each place it can occur',
     'Tests only state consistent input.',
     [U, E, C, X, K, T, M], [('plausibility checks', C), ('lengths', U)], ['errors'])

prop('C31', 'Equations reach the solver as stated',
     'Every equation, inequation and objective made of summands (a variable times a number or a series of factors, at all, some or one of its entries, entry by entry or summed up) and constants is, in each of its rows, exactly that relation of the model handed to the solver; '
     'variables have the stated limits, fixed values and kind, and nothing else is restricted, in whatever order things are added. Parts of different length and fixed values outside of the limits are refused, others are not, and the reported size of the model counts what was stated.',
     ['inputs', 'configurations'], 'all factors, constants, limits and combinations of summands',
     'Tests see only whole systems, and only the values of one optimum.',
     [M, U], [('equations and translation', M), ('vectors', U)], ['rows of the solver, values of the variables, model size'])
prop('C32', 'Plots draw the values of the table',
     'A plot of a table draws each of its columns exactly once, with the value of every step at its time stamp (area plots may draw values below 1e-5 as zero), held until the next step where it is a line, in the colour of that column; '
     'bars are stacked on those of the same sign, areas are stacked only with others of the same sign and only if the whole column has one sign, and the given table is left unaltered as is whatever the figure held before. '
     'A figure is shown, and written to the path given, exactly where that is asked for. A heat map has one cell per period and step of the period, holding the mean of the values that fall into it, or the nearest earlier (later) one where it is to be filled, and its scale runs from the lowest to the highest value. '
     'Plots of the results of an element, of aggregated series and of the network show the results, the series and the connections of that system.',
     ['inputs', 'configurations'], 'all values of the tables, within the shapes of the bounds',
     'Tests draw two random tables and look at nothing.',
     ['flixOpt/plotting.py', 'flixOpt/results.py', 'flixOpt/aggregation.py'], [('drawing', 'flixOpt/plotting.py'), ('choice of data', 'flixOpt/results.py')], ['traces of the figure, calls of the axes, cells of the heat map'])

prop('C33', 'Modelling settings are the ones in force',
     'The settings of the modelling, read from the default file or the file of the user or set later, are those used when a system is stated and modelled: flows without a size and investments without a maximum size reach up to the configured big size and not above; '
     'a flow that is on runs at least at the configured threshold and one that is off does not run, flows and their rates before the horizon count as on only above that threshold, and an optional investment that is made has at least that size. '
     'The settings in force are saved with the results; a setting of the wrong kind is refused and changes nothing.',
     ['inputs', 'configurations'], 'all values of the big size and the threshold, all inputs within the bounds',
     'Tests only use the default settings.',
     ['flixOpt/config.py', F, E, 'flixOpt/interface.py', U], [('settings', 'flixOpt/config.py'), ('limits and thresholds', F)], ['rows of the solver, saved infos'])

prop('C34', 'The model that is written out is the model that is solved',
     'The description of an equation or inequation states, for the row asked for (the first one by default, the last one for numbers beyond), its name, the number of the row and of rows, the constant of that row, the relation, and one term for each summand stated: the factor and entry of the variable of that row, or one of the products of a sum. The description of a variable states its name, length, kind and its limits or fixed values. The descriptions of the model, nested and flat, in memory and in the file saved with the results, hold every variable and constraint of the model exactly once, at the element it belongs to, and the reported size of the model of an element counts those of it and its parts.',
     ['inputs', 'configurations'], 'all factors, constants, limits and values of the parameters of the elements, within the shapes of the bounds',
     'No test looks at the description; reading it is what a user does to see what was modelled.',
     ['flixOpt/math_modeling.py', 'flixOpt/structure.py', 'flixOpt/calculation.py'], [('descriptions of variables, summands and equations', 'flixOpt/math_modeling.py'), ('collection over elements and their parts', 'flixOpt/structure.py')], ['Equation.description, Variable.description, SystemModel.description_of_constraints, the saved calculation infos'])

CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claimed.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'not_applicable.json')) else {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['tests'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i not in CLAIMED:
            na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
            continue
        checks.append(dict(
            property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
            technique='symbolic execution of the real Python code (symbolic parameters and time axis), claims decided by z3 over all solutions of the generated model',
            level='model_checking',
            level_note=CLAIMED[i] or ('Holds for every value of the symbolic inputs and every solution of the generated model within the stated shapes '
                                      '(number of steps, flows, segments; see evidence bounds). Assumes exact rational arithmetic and the numpy/pyomo '
                                      'stand-ins, which each run compares with the real Pyomo model.')))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='All checks: ./check <ID> [quick|thorough]. Exit 0 also when a configuration stays undecided; it is then listed as inconclusive in the '
                   'evidence. Violations are reported only after a concrete run of the unmodified package shows them, again in a fresh process '
                   '(replay: python -m vf.replay FILE with PYTHONPATH=/repo:/verif).')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
