from ..reg import grid, harness
from .c04_onoff import switch_witness
from .c08_exclusive import at_most_one
from .c09_invest import invest_args, size_spec
from .common import *


@harness('C15', quick=grid(two=[False, True], rel=['none', 'scalar', 'array'], ab=['none', 'zero'], prevent=[True])
         + grid(two=[False, True], rel=['none', 'scalar', 'array'], ab=['scalar', 'array', 'partly'], prevent=[True])
         + grid(two=[True], rel=['tsd'], ab=['none', 'tsd'], prevent=[False])
         + grid(two=[True], rel=['scalar'], ab=['none', 'scalar'], prevent=[False], on_off=[False, True])
         + grid(two=[False, True], rel=['scalar'], ab=['none', 'scalar'], prevent=[True], size=['range', 'fixed', 'max'], optional=[True, False]),
         thorough=grid(two=[True], rel=['array'], ab=['array', 'partly'], prevent=[True, False], n=[3])
         + grid(two=[True], rel=['array'], ab=['array'], prevent=[False], size=['range', 'fixed'], optional=[True, False]),
         cost=2, bounds='2 time steps (3 thorough), relative losses in [0, 0.99], absolute losses in [0, 100]')
def line(c, two, rel, ab, prevent, size='given', optional=False, on_off=False, n=2):
    fs, dt, costs = system(c, n)
    ba, bb = open_bus('a'), open_bus('b')
    kw = {}
    rl, al = [0] * n, [0] * n
    if rel != 'none':
        kw['relative_losses'], rl = series(c, 'rel', rel, n, 0, 0.99)
    if ab == 'zero':
        kw['absolute_losses'] = 0
    elif ab == 'partly':
        al = [0, *(c.real(f'abs{t}', 0.01, 100) for t in range(1, n))]
        kw['absolute_losses'] = c.pack(al)
    elif ab != 'none':
        kw['absolute_losses'], al = series(c, 'abs', ab, n, 0.01, 100)
    if on_off:
        kw['on_off_parameters'] = fx.OnOffParameters()
    if size == 'given':
        S1, S2 = c.real('size1', 1, 10**4), c.real('size2', 1, 10**4)
        s1, s2 = S1, S2
    else:
        ia, lo, hi = invest_args(c, size, optional)
        s1, s2 = fx.InvestParameters(**ia), None
    Q = [c.real(f'osize{i}', 1, 10**4) for i in range(2)]
    in1, out1 = fx.Flow('in1', ba, size=s1), fx.Flow('out1', bb, size=Q[0])
    if two:
        in2, out2 = fx.Flow('in2', bb, size=s2), fx.Flow('out2', ba, size=Q[1])
        if not prevent:
            kw['prevent_simultaneous_flows_in_both_directions'] = False
        comp = fx.Transmission('u', in1, out1, in2, out2, **kw)
    else:
        comp = fx.Transmission('u', in1, out1, **kw)
    fs.add_components(comp)
    m = c.model(fs)
    d = [(rate(m, 'u', f'in{i}'), rate(m, 'u', f'out{i}')) for i in ((1, 2) if two else (1,))]
    spec, main, wit = [], [], []
    if size == 'given':
        S = [S1, S2]
    else:
        sz, ok, inv = size_spec(m, ('u', 'in1', 'Investment'), optional, lo, hi)
        c.sound(m, 'size is zero or within its limits', ok)
        S = [sz, sz]
        spec.append(ok)
        main += [sz] + ([inv] if inv is not None else [])
        if two:
            sz2 = m.comp('u', 'in2', 'Investment', 'size')
            c.sound(m, 'both directions have the same size', sz == sz2)
            if m.has('Components', 'u', 'in2', 'Investment', 'isInvested'):
                wit += [(m.comp('u', 'in2', 'Investment', 'isInvested'), c.ite(sz > 0, 1, 0))]
            wit += [(sz2, sz)]
            spec.append(disj(sz == 0, sz >= EPS))
    absl = ab not in ('none', 'zero')
    ons = absl or on_off
    for i, (x, y) in enumerate(d):
        out = []
        for t in range(n):
            o = x[t] * (1 - rl[t]) - al[t] * c.ite(x[t] > 0, 1, 0)
            out.append(o)
            c.sound(m, f'direction {i + 1} delivers what enters minus losses at step {t}',
                    conj(implies(x[t] > 0, y[t] == x[t] * (1 - rl[t]) - al[t]), implies(x[t] <= 0, y[t] == 0)))
            c.sound(m, f'size limits direction {i + 1} at step {t}', conj(x[t] >= 0, x[t] <= S[i]))
            on_i, on_o = ons or (prevent and two), ons
            spec.append(conj(disj(x[t] == 0, x[t] >= EPS) if on_i else x[t] >= 0, x[t] <= S[i]))
            spec.append(conj(disj(o == 0, o >= EPS) if on_o else o >= 0, o <= Q[i]))
        main.append(x)
        wit.append((y, out))
        for f, z, has in ((f'in{i + 1}', x, on_i), (f'out{i + 1}', out, on_o)):
            if has:
                on = [c.ite(v > 0, 1, 0) for v in z]
                wit += [(m.comp('u', f, 'OnOff', 'on'), on)] + switch_witness(m, ('Components', 'u', f, 'OnOff'), on)
    outs = [dict((id(k), v) for k, v in wit if isinstance(k, list)).get(id(y)) for _, y in d]
    net_a = [-v for v in d[0][0]]
    net_b = outs[0]
    if two:
        net_a = [p + q for p, q in zip(net_a, outs[1])]
        net_b = [p - q for p, q in zip(net_b, d[1][0])]
    wit += excess(m, 'a', net_a) + excess(m, 'b', net_b)
    if two and prevent:
        for t in range(n):
            s = at_most_one([x[t] for x, _ in d])
            c.sound(m, f'only one direction is used at step {t}', s)
            spec.append(s)
    if on_off:
        on = [c.ite(disj(*(v[t] > 0 for v in (*[x for x, _ in d], *outs))), 1, 0) for t in range(n)]
        wit += [(m.comp('u', 'OnOff', 'on'), on)] + switch_witness(m, ('Components', 'u', 'OnOff'), on)
    c.complete(m, 'every use within the rules is possible', conj(*spec), main, wit)
