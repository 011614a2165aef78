from ..reg import grid, harness
from .c04_onoff import switch_witness
from .common import *

LIM = 1000


def effect_arg(c, name, shape, n, costs, other):
    """effect values of one cause: (argument, {effect: value of every step})"""
    if shape in ('scalar', 'array', 'tsd'):  # no effect named: the standard effect
        a, v = series(c, name, shape, n, -LIM, LIM)
        return a, {'costs': v}
    kinds = {'dict': ('scalar', 'array'), 'dict_tsd': ('tsd', 'scalar')}[shape]
    a, v = series(c, name + 'a', kinds[0], n, -LIM, LIM)
    b, w = series(c, name + 'b', kinds[1], n, -LIM, LIM)
    return {costs: a, other: b}, {'costs': v, 'co2': w}


def parts(m, lab):
    ts, op, inv = (m.effect(lab, k, w) for k, w in (('operation', 'sum_TS'), ('operation', 'sum'), ('invest', 'sum')))
    return ts, op, inv, m.effect(lab, 'all', 'sum')


@harness('C16', quick=grid(a=['scalar', 'array', 'tsd', 'dict', 'dict_tsd'], b=['array', 'dict']) + grid(a=['dict'], b=['dict_tsd'], kind=['on', 'converter', 'invest'])
         + grid(a=['dict'], b=['array'], n=[3], equal=[True]),
         thorough=grid(a=['dict'], b=['dict', 'dict_tsd'], n=[5]),
         bounds='two flows, two effects, 2 time steps (5 thorough), effect values in [-1000, 1000]')
def causes(c, a, b, kind='flows', n=2, equal=False):
    co2 = fx.Effect('co2', 'kg', 'co2')
    fs, dt, costs = system(c, n, equal, effects=[co2])
    a1, v1 = effect_arg(c, 'e', a, n, costs, co2)
    a2, v2 = effect_arg(c, 'g', b, n, costs, co2)
    b1, b2 = open_bus('b1'), open_bus('b2')
    S = [c.real(f's{i}', 0.01, 10**4) for i in range(2)]
    want = {lab: [0] * n for lab in ('costs', 'co2')}
    winv = {'costs': 0, 'co2': 0}

    def add(r, v, w):
        for lab, vals in v.items():
            for t in range(n):
                want[lab][t] = want[lab][t] + r[t] * vals[t] * w[t]

    p1, p2 = ('u', 'f'), ('w', 'f')
    if kind == 'converter':
        f, g = fx.Flow('f', b1, size=S[0], effects_per_flow_hour=a1), fx.Flow('g', b2, size=S[1], effects_per_flow_hour=a2)
        fs.add_components(fx.LinearConverter('u', inputs=[f], outputs=[g], conversion_factors=[{f: c.real('k', 0.1, 10), g: 1}]))
        p2 = ('u', 'g')
    elif kind == 'on':
        rh, rv = effect_arg(c, 'rh', 'dict', n, costs, co2)
        st, sv = effect_arg(c, 'st', 'dict_tsd', n, costs, co2)
        unit(c, fs, b1, 'source', dict(size=S[0], effects_per_flow_hour=a1, on_off_parameters=fx.OnOffParameters(
            effects_per_running_hour=rh, effects_per_switch_on=st)))
        unit(c, fs, b2, 'sink', dict(size=S[1], effects_per_flow_hour=a2), label='w')
    elif kind == 'invest':
        fix = c.real('fix', -LIM, LIM)
        sp = [c.real(f'sp{i}', -LIM, LIM) for i in range(2)]
        unit(c, fs, b1, 'source', dict(size=fx.InvestParameters(maximum_size=S[0], optional=False, fix_effects={co2: fix},
                                                                specific_effects={costs: sp[0], co2: sp[1]}), effects_per_flow_hour=a1))
        unit(c, fs, b2, 'sink', dict(size=S[1], effects_per_flow_hour=a2), label='w')
    else:
        unit(c, fs, b1, 'source', dict(size=S[0], effects_per_flow_hour=a1))
        unit(c, fs, b2, 'sink', dict(size=S[1], effects_per_flow_hour=a2), label='w')
    m = c.model(fs)
    add(rate(m, *p1), v1, dt)
    add(rate(m, *p2), v2, dt)
    if kind == 'on':
        add(m.comp('u', 'f', 'OnOff', 'on'), rv, dt)
        add(m.comp('u', 'f', 'OnOff', 'switchOn'), sv, [1] * n)
    if kind == 'invest':
        S1 = m.comp('u', 'f', 'Investment', 'size')
        winv = {'costs': S1 * sp[0], 'co2': fix + S1 * sp[1]}
    for lab in want:
        ts, op, inv, al = parts(m, lab)
        for t in range(n):
            c.sound(m, f'operation part of {lab} at step {t}', ts[t] == want[lab][t])
        c.sound(m, f'operation total of {lab}', op == total(want[lab]))
        c.sound(m, f'investment part of {lab}', inv == winv[lab])
        c.sound(m, f'total of {lab}', al == op + inv)


@harness('C16', quick=grid(op=['scalar', 'array', 'tsd', 'none'], inv=[True, False], net=['pair', 'chain', 'fan', 'join']),
         thorough=grid(op=['array'], inv=[True], net=['pair', 'chain', 'fan', 'join'], n=[4]),
         bounds='two or three effects with shares to each other, 2 time steps (4 thorough)')
def shares(c, op, inv, net, n=2):
    """pair: b -> a; chain: d -> b -> a; fan: b -> a and d; join: b -> a and d -> a"""
    links = {'pair': [('b', 'a')], 'chain': [('d', 'b'), ('b', 'a')], 'fan': [('b', 'a'), ('b', 'd')], 'join': [('b', 'a'), ('d', 'a')]}[net]
    ts, dt = c.time(n)
    fs = fx.FlowSystem(ts)
    E = {'a': fx.Effect('a', 'EUR', 'a', is_standard=True, is_objective=True)}
    fo, fi = {}, {}

    def make(lab):
        if lab in E:
            return E[lab]
        kw = {}
        tg = [t for s, t in links if s == lab]
        for t in tg:
            make(t)
            if op != 'none':
                x, fo[lab, t] = series(c, f'o{lab}{t}', op, n, -LIM, LIM)
                kw.setdefault('specific_share_to_other_effects_operation', {})[E[t]] = x
            if inv:
                fi[lab, t] = c.real(f'i{lab}{t}', -LIM, LIM)
                kw.setdefault('specific_share_to_other_effects_invest', {})[E[t]] = fi[lab, t]
        E[lab] = fx.Effect(lab, '-', lab, **kw)
        return E[lab]

    for lab in ('b', 'd') if net != 'pair' else ('b',):
        make(lab)
    fs.add_effects(*E.values())
    ev = {lab: c.real(f'ev{lab}', -LIM, LIM) for lab in E}
    sp = {lab: c.real(f'sp{lab}', -LIM, LIM) for lab in E}
    unit(c, fs, open_bus(), 'source', dict(size=fx.InvestParameters(maximum_size=c.real('S', 0.01, 10**4), optional=False,
                                                                    specific_effects={E[x]: sp[x] for x in E}),
                                           effects_per_flow_hour={E[x]: ev[x] for x in E}))
    m = c.model(fs)
    r, S = rate(m, 'u', 'f'), m.comp('u', 'f', 'Investment', 'size')
    order = {'pair': 'ba', 'chain': 'dba', 'fan': 'bad', 'join': 'bda'}[net]
    wt = {lab: [r[t] * ev[lab] * dt[t] for t in range(n)] for lab in E}
    wi = {lab: S * sp[lab] for lab in E}
    for lab in order:
        for (s, g), f in fo.items():
            if s == lab:
                wt[g] = [x + f[t] * wt[s][t] for t, x in enumerate(wt[g])]
        for (s, g), f in fi.items():
            if s == lab:
                wi[g] = wi[g] + f * wi[s]
    for lab in E:
        x, o, i, al = parts(m, lab)
        for t in range(n):
            c.sound(m, f'operation part of {lab} at step {t} with shares', x[t] == wt[lab][t])
        c.sound(m, f'operation total of {lab}', o == total(wt[lab]))
        c.sound(m, f'investment part of {lab} with shares', i == wi[lab])
        c.sound(m, f'total of {lab}', al == total(wt[lab]) + wi[lab])


LIMITS = ['operation', 'invest', 'total', 'hour scalar', 'hour array', 'hour tsd', 'all']


@harness('C16', quick=grid(limit=LIMITS, side=['min', 'max', 'both']) + grid(limit=['hour array', 'all'], side=['both'], on=['other'])
         + grid(limit=['operation', 'invest', 'total', 'hour scalar'], side=['max'], zero=[True]),
         thorough=grid(limit=['hour array', 'all'], side=['both'], n=[4]),
         bounds='2 time steps (4 thorough), limits of an effect in [-1e5, 1e5]')
def limits(c, limit, side, on='costs', zero=False, n=2):
    kw, L = {}, {}
    for w in ('operation', 'invest', 'total'):
        if limit in (w, 'all'):
            for s in ('min', 'max'):
                if side in (s, 'both'):
                    L[w, s] = 0 if zero else c.real(f'{s}_{w}', -10**5, 10**5)
                    kw[f'{s}imum_{w}'] = L[w, s]
    hour = {}
    if limit.startswith('hour') or limit == 'all':
        for s in ('min', 'max'):
            if side in (s, 'both'):
                if zero:
                    a, v = 0, [0] * n
                else:
                    a, v = series(c, f'{s}_hour', 'array' if limit == 'all' else limit[5:], n, -10**4, 10**4)
                kw[f'{s}imum_operation_per_hour'], hour[s] = a, v
    ts, dt = c.time(n)
    fs = fx.FlowSystem(ts)
    if on == 'costs':
        costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True, **kw)
        eff = costs
        fs.add_effects(costs)
    else:
        costs, eff = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True), fx.Effect('other', '-', 'other', **kw)
        fs.add_effects(costs, eff)
    e, sp = c.real('e', -LIM, LIM), c.real('sp', -LIM, LIM)
    c.assume(conj(e != 0, sp != 0))
    M = c.real('S', 0.01, 10**4)
    unit(c, fs, open_bus(), 'source', dict(size=fx.InvestParameters(maximum_size=M, optional=False, specific_effects={eff: sp}),
                                           effects_per_flow_hour={eff: e}))
    m = c.model(fs)
    r, S = rate(m, 'u', 'f'), m.comp('u', 'f', 'Investment', 'size')
    t_, o_, i_, al_ = parts(m, eff.label)
    step = [r[t] * e * dt[t] for t in range(n)]
    op, inv = total(step), S * sp
    rules = []
    for (w, s), x in L.items():
        got, val = {'operation': (o_, op), 'invest': (i_, inv), 'total': (al_, op + inv)}[w]
        c.sound(m, f'{s}imum of {w}', got >= x if s == 'min' else got <= x)
        rules.append(val >= x if s == 'min' else val <= x)
    for s, v in hour.items():
        for t in range(n):
            c.sound(m, f'{s}imum per hour at step {t}', t_[t] >= v[t] * dt[t] if s == 'min' else t_[t] <= v[t] * dt[t])
            rules.append(step[t] >= v[t] * dt[t] if s == 'min' else step[t] <= v[t] * dt[t])
    spec = [*rules, conj(S >= EPS, S <= M)] + [conj(x >= 0, x <= S) for x in r]
    c.complete(m, 'every use within the limits is possible', conj(*spec), [r, S], excess(m, 'bus', r))


@harness('C17', quick=grid(pen=['none', 'zero', 'scalar', 'array', 'tsd'], buses=[1, 2], share=[False, True])
         + grid(pen=['array'], buses=[2], share=[True], objective=['co2'])
         + grid(pen=['array'], buses=[1], share=[False], n=[3], equal=[True]),
         thorough=grid(pen=['array', 'tsd'], buses=[2], share=[True], objective=['costs', 'co2'], n=[4]),
         bounds='1-2 buses, two effects, one investment, 2 time steps (4 thorough)')
def objective(c, pen, buses, share, objective='costs', n=2, equal=False):
    ts, dt = c.time(n, equal=equal)
    fs = fx.FlowSystem(ts)
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=objective == 'costs')
    kw = dict(specific_share_to_other_effects_operation={costs: c.real('sh', -LIM, LIM)}) if share else {}
    co2 = fx.Effect('co2', 'kg', 'co2', is_objective=objective == 'co2', **kw)
    fs.add_effects(costs, co2)
    P = []
    for i in range(buses):
        if pen == 'none':
            a, v = None, None
        elif pen == 'zero':
            a, v = 0, [0] * n
        else:
            a, v = series(c, f'pen{i}', pen, n, 0, 10**5)
        P.append(v)
        b = fx.Bus(f'b{i}', excess_penalty_per_flow_hour=a)
        kw = dict(size=c.real(f's{i}', 0.01, 10**4))
        if i == 0:
            kw['size'] = fx.InvestParameters(maximum_size=kw['size'], fix_effects=c.real('fix', -LIM, LIM), specific_effects={co2: c.real('sp', -LIM, LIM)})
        unit(c, fs, b, 'source', dict(kw, effects_per_flow_hour={costs: c.real(f'e{i}', -LIM, LIM), co2: c.real(f'g{i}', -LIM, LIM)}), label=f'u{i}')
        unit(c, fs, b, 'sink', dict(size=c.real(f'd{i}', 0.01, 10**4), effects_per_flow_hour=c.real(f'h{i}', -LIM, LIM)), label=f'd{i}')
    m = c.model(fs)
    ts_, op, inv, al = parts(m, objective)
    p = 0
    for i in range(buses):
        if pen != 'none':
            xi, xo = m.v('Buses', f'b{i}', 'excess_input'), m.v('Buses', f'b{i}', 'excess_output')
            p = p + total((xi[t] + xo[t]) * P[i][t] * dt[t] for t in range(n))
    c.sound(m, 'the penalty is the excess times its rate and duration', m.v('Effects', 'penalty', 'penalty_sum') == p)
    c.sound(m, 'the objective is the objective effect plus the penalty', m.objective == al + p)
    c.sound(m, 'the objective effect is operation plus investment', al == op + inv)
    c.sound(m, 'the reported objective is the minimised quantity', m.v('Objective') == m.objective)
