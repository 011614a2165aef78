from flixOpt.linear_converters import CHP, Boiler, CoolingTower, HeatPump, HeatPumpWithSource, Power2Heat

from ..reg import grid, harness
from .c04_onoff import switch_witness
from .common import *

# per layout: number of inputs and outputs, equations as lists of the flows they use
LAYOUTS = {
    '1:1': (1, 1, [(0, 1)]),
    '2:1': (2, 1, [(0, 1, 2)]),
    '1:2 two': (1, 2, [(0, 1), (0, 2)]),
    '2:2 one': (2, 2, [(0, 1, 2, 3)]),
    '2:2 two': (2, 2, [(0, 2), (1, 2, 3)]),
    '2:2 three': (2, 2, [(0, 2), (1, 3), (0, 1)]),
    '2:0': (2, 0, [(0, 1)]),
    '0:2': (0, 2, [(0, 1)]),
    '3:1 part': (3, 1, [(0, 3)]),
}


def free_flows(c, k):
    S = [c.real(f'size{i}', 0.01, 10**4) for i in range(k)]
    return S, [fx.Flow(f'f{i}', open_bus(f'b{i}'), size=S[i]) for i in range(k)]


def open_wit(m, r, n_in):
    wit = []
    for i, x in enumerate(r):
        wit += excess(m, f'b{i}', [-y for y in x] if i < n_in else x)
    return wit


@harness('C11', quick=grid(layout=['1:1', '2:1', '1:2 two'], shape=['scalar', 'array', 'tsd'])
         + grid(layout=['2:2 one', '2:2 two', '2:2 three', '2:0', '0:2', '3:1 part'], shape=['array'])
         + grid(layout=['1:1', '2:2 two'], shape=['scalar', 'array'], on_off=[True]),
         thorough=grid(layout=list(LAYOUTS), shape=['array', 'tsd'], n=[4], on_off=[False, True]),
         bounds='up to 4 flows and 3 equations, 2 time steps (4 thorough), factors in [-100, 100], in every step at least one of an equation is not zero')
def equations(c, layout, shape, n=2, on_off=False):
    n_in, n_out, eqs = LAYOUTS[layout]
    fs, dt, costs = system(c, n)
    S, flows = free_flows(c, n_in + n_out)
    factors, vals = [], []
    for e, used in enumerate(eqs):
        d, v = {}, {}
        for i in used:
            d[flows[i]], v[i] = series(c, f'k{e}_{i}', shape, n, -100, 100)
        for t in range(n):  # an equation without any factor is no equation
            c.assume(disj(*(conj(y[t] >= 0.01) for y in v.values()), *(conj(y[t] <= -0.01) for y in v.values())))
        factors.append(d)
        vals.append(v)
    kw = dict(on_off_parameters=fx.OnOffParameters()) if on_off else {}
    fs.add_components(fx.LinearConverter('u', inputs=flows[:n_in], outputs=flows[n_in:], conversion_factors=factors, **kw))
    m = c.model(fs)
    r = [rate(m, 'u', f'f{i}') for i in range(len(flows))]
    spec = []
    for t in range(n):
        for e, v in enumerate(vals):
            s = total(v[i][t] * r[i][t] * (1 if i < n_in else -1) for i in v) == 0
            c.sound(m, f'equation {e} at step {t}', s)
            spec.append(s)
        for i in range(len(flows)):
            spec.append(conj(r[i][t] >= 0, r[i][t] <= S[i]))
    if not on_off:
        c.complete(m, 'every rate obeying the equations is possible', conj(*spec), r, open_wit(m, r, n_in))


PREDEFINED = {
    'boiler': (['Q_fu'], ['Q_th'], ['eta']),
    'p2h': (['P_el'], ['Q_th'], ['eta']),
    'hp': (['P_el'], ['Q_th'], ['COP']),
    'tower': (['P_el', 'Q_th'], [], ['demand']),
    'chp': (['Q_fu'], ['P_el', 'Q_th'], ['eta_th', 'eta_el']),
    'hps': (['P_el', 'Q_ab'], ['Q_th'], ['COP']),
}


@harness('C11', quick=grid(kind=list(PREDEFINED), shape=['scalar', 'array', 'tsd']) + grid(kind=['boiler', 'chp'], shape=['array'], on_off=[True]),
         thorough=grid(kind=list(PREDEFINED), shape=['array', 'tsd'], n=[4]),
         bounds='2 time steps (4 thorough), all efficiencies up to 1.5, coefficients of performance in [1.05, 25]')
def predefined(c, kind, shape, n=2, on_off=False):
    ins, outs, params = PREDEFINED[kind]
    fs, dt, costs = system(c, n)
    S, fl = {}, {}
    for i, x in enumerate(ins + outs):
        S[x] = c.real(f'size_{x}', 0.01, 10**4)
        fl[x] = fx.Flow(x, open_bus(f'b{i}'), size=S[x])
    a, v = {}, {}
    for p in params:
        lo, hi = (1.05, 25) if p == 'COP' else (0.01, 1.5)
        a[p], v[p] = series(c, p, shape, n, lo, hi)
    kw = dict(on_off_parameters=fx.OnOffParameters()) if on_off else {}
    if kind == 'boiler':
        comp = Boiler('u', eta=a['eta'], **fl, **kw)
    elif kind == 'p2h':
        comp = Power2Heat('u', eta=a['eta'], **fl, **kw)
    elif kind == 'hp':
        comp = HeatPump('u', COP=a['COP'], **fl, **kw)
    elif kind == 'tower':
        comp = CoolingTower('u', specific_electricity_demand=a['demand'], **fl, **kw)
    elif kind == 'chp':
        comp = CHP('u', eta_th=a['eta_th'], eta_el=a['eta_el'], **fl, **kw)
    else:
        comp = HeatPumpWithSource('u', COP=a['COP'], **fl, **kw)
    fs.add_components(comp)
    m = c.model(fs)
    r = {x: rate(m, 'u', x) for x in ins + outs}
    spec = []
    for t in range(n):
        if kind == 'boiler':
            s = [r['Q_fu'][t] * v['eta'][t] == r['Q_th'][t]]
        elif kind == 'p2h':
            s = [r['P_el'][t] * v['eta'][t] == r['Q_th'][t]]
        elif kind == 'hp':
            s = [r['P_el'][t] * v['COP'][t] == r['Q_th'][t]]
        elif kind == 'tower':
            s = [r['P_el'][t] == v['demand'][t] * r['Q_th'][t]]
        elif kind == 'chp':
            s = [r['Q_fu'][t] * v['eta_th'][t] == r['Q_th'][t], r['Q_fu'][t] * v['eta_el'][t] == r['P_el'][t]]
        else:
            s = [r['P_el'][t] * v['COP'][t] == r['Q_th'][t], r['Q_ab'][t] + r['P_el'][t] == r['Q_th'][t]]
        for i, x in enumerate(s):
            c.sound(m, f'conversion rule {i} at step {t}', x)
        spec += s + [conj(r[x][t] >= 0, r[x][t] <= S[x]) for x in r]
    if not on_off:
        c.complete(m, 'every rate obeying the efficiencies is possible', conj(*spec), list(r.values()), open_wit(m, list(r.values()), len(ins)))


@harness('C12', quick=grid(k=[1, 2, 3], shape=['scalar'], flows=[(1, 1)], on_off=[False, True])
         + grid(k=[2], shape=['array', 'tsd'], flows=[(1, 1)], on_off=[False, True])
         + grid(k=[2], shape=['scalar'], flows=[(1, 2), (2, 1)], on_off=[False]),
         thorough=grid(k=[3], shape=['array'], flows=[(1, 2)], on_off=[False, True]),
         bounds='2-3 flows, 1-3 segments, 2 time steps, end points in [0, 1000]')
def segments(c, k, shape, flows, on_off, n=2):
    n_in, n_out = flows
    nf = n_in + n_out
    fs, dt, costs = system(c, n)
    S = [c.real(f'size{i}', 1, 1000) for i in range(nf)]
    fl = [fx.Flow(f'f{i}', open_bus(f'b{i}'), size=S[i]) for i in range(nf)]
    arg, pts = {}, []
    for i in range(nf):
        arg[fl[i]], ps = [], []
        for s in range(k):
            a, av = series(c, f'p{i}_{s}a', shape, n, 0, 1000)
            b, bv = series(c, f'p{i}_{s}b', shape, n, 0, 1000)
            arg[fl[i]].append((a, b))
            ps.append((av, bv))
            for t in range(n):
                c.assume(conj(av[t] <= S[i], bv[t] <= S[i]))
        pts.append(ps)
    kw = dict(on_off_parameters=fx.OnOffParameters()) if on_off else {}
    fs.add_components(fx.LinearConverter('u', inputs=fl[:n_in], outputs=fl[n_in:], segmented_conversion_factors=arg, **kw))
    m = c.model(fs)
    r = [rate(m, 'u', f'f{i}') for i in range(nf)]
    on = m.comp('u', 'OnOff', 'on') if on_off else None
    for t in range(n):
        cases = []
        for s in range(k):
            p = [(pts[i][s][0][t], pts[i][s][1][t]) for i in range(nf)]
            z = []
            for i in range(nf):
                z.append(conj(r[i][t] >= smin(*p[i]), r[i][t] <= smax(*p[i])))
                for j in range(i):
                    z.append((p[i][1] - p[i][0]) * (r[j][t] - p[j][0]) == (r[i][t] - p[i][0]) * (p[j][1] - p[j][0]))
            cases.append(conj(*z))
        seg = disj(*cases)
        if on_off:
            c.sound(m, f'off is zero at step {t}', implies(on[t] == 0, conj(*[x[t] == 0 for x in r])))
            seg = implies(on[t] == 1, seg)
        c.sound(m, f'flows lie together on one segment at step {t}', seg)
    lam = [[m.comp('u', 'MultipleSegments', f'Segment_{s}', x) for x in ('inSegment', 'lambda0', 'lambda1')] for s in range(k)]
    spec, val = [], [[] for _ in range(nf)]
    for t in range(n):
        for x in lam:
            spec.append(conj(is01(x[0][t]), x[1][t] >= 0, x[2][t] >= 0, x[1][t] + x[2][t] == x[0][t]))
        spec.append(total(x[0][t] for x in lam) == (on[t] if on_off else 1))
        for i in range(nf):
            val[i].append(total(pts[i][s][0][t] * lam[s][1][t] + pts[i][s][1][t] * lam[s][2][t] for s in range(k)))
        if on_off:
            spec.append(is01(on[t]))
            for i in range(nf):  # the documented threshold: a running flow is at least that large
                spec.append(disj(val[i][t] == 0, val[i][t] >= EPS))
            spec.append(implies(on[t] == 1, total(v[t] for v in val) >= EPS))
    wit = [z for i in range(nf) for z in [(r[i], val[i])]] + open_wit(m, val, n_in)[0:0]
    for i in range(nf):
        wit += excess(m, f'b{i}', [-y for y in val[i]] if i < n_in else val[i])
    if on_off:
        wit += switch_witness(m, ('Components', 'u', 'OnOff'), on)
        for i in range(nf):
            f_on = [c.ite(v > 0, 1, 0) for v in val[i]]
            wit += [(m.comp('u', f'f{i}', 'OnOff', 'on'), f_on)] + switch_witness(m, ('Components', 'u', f'f{i}', 'OnOff'), f_on)
    main = [y for x in lam for y in x] + ([on] if on_off else [])
    c.complete(m, 'every point of every segment is possible', conj(*spec), main, wit)
