from ..reg import grid, harness
from .c09_invest import invest_args, size_spec
from .common import *

LIM = 1000


def values(c, name, shape, costs, other):
    """effect values: plain number (standard effect), or a dictionary; returns (argument, {label: value})"""
    if shape == 'number':
        x = c.real(name, -LIM, LIM)
        return x, {'costs': x}
    if shape == 'none_key':
        x, y = c.real(name, -LIM, LIM), c.real(name + '2', -LIM, LIM)
        return {None: x, other: y}, {'costs': x, 'co2': y}
    x, y = c.real(name, -LIM, LIM), c.real(name + '2', -LIM, LIM)
    return {costs: x, other: y}, {'costs': x, 'co2': y}


def flow_or_storage(c, fs, what, label, inv):
    if what == 'flow':
        unit(c, fs, open_bus('b' + label), 'source', dict(size=inv), label=label)
        return (label, 'f', 'Investment')
    b = open_bus('b' + label)
    fs.add_components(fx.Storage(label, charging=fx.Flow('i', b, size=1), discharging=fx.Flow('o', b, size=1), capacity_in_flow_hours=inv))
    return (label, 'Investment')


@harness('C10', quick=grid(what=['flow', 'storage'], kind=['fixed', 'range'], optional=[True, False], shape=['number', 'dict'])
         + grid(what=['flow'], kind=['max', 'zero'], optional=[True, False], shape=['none_key'])
         + grid(what=['flow'], kind=['range'], optional=[True], shape=['dict'], parts=['fix', 'specific', 'divest']),
         bounds='one investment, one or two effects')
def one_investment(c, what, kind, optional, shape, parts='all', n=2):
    other = fx.Effect('co2', 'kg', 'co2')
    fs, dt, costs = system(c, n, effects=[other])
    ia, lo, hi = invest_args(c, kind, optional)
    kw, fix, spec, div = {}, {}, {}, {}
    if parts in ('all', 'fix'):
        kw['fix_effects'], fix = values(c, 'fix', shape, costs, other)
    if parts in ('all', 'specific'):
        kw['specific_effects'], spec = values(c, 'spec', shape, costs, other)
    if parts in ('all', 'divest'):
        kw['divest_effects'], div = values(c, 'div', shape, costs, other)
    path = flow_or_storage(c, fs, what, 'u', fx.InvestParameters(**ia, **kw))
    m = c.model(fs)
    S = m.comp(*path, 'size')
    inv = m.comp(*path, 'isInvested') if optional else 1
    for lab in ('costs', 'co2'):
        want = inv * fix.get(lab, 0) + S * spec.get(lab, 0) + (1 - inv) * div.get(lab, 0)
        c.sound(m, f'investment part of {lab}', m.effect(lab, 'invest', 'sum') == want)
        c.sound(m, f'nothing lands in the operation part of {lab}', m.effect(lab, 'operation', 'sum') == 0)


@harness('C10', quick=grid(first=['flow', 'storage'], second=['flow', 'storage'], opt=[(True, True), (True, False)]),
         bounds='two investments, two effects')
def two_investments(c, first, second, opt, n=2):
    other = fx.Effect('co2', 'kg', 'co2')
    fs, dt, costs = system(c, n, effects=[other])
    parts, paths = [], []
    for i, what in enumerate((first, second)):
        ia, _, _ = invest_args(c, 'range', opt[i], str(i))
        fix = c.real(f'fix{i}', -LIM, LIM)
        a2, spec = values(c, f'spec{i}', 'dict', costs, other)
        div = c.real(f'div{i}', -LIM, LIM)
        parts.append((fix, spec, div))
        paths.append(flow_or_storage(c, fs, what, f'u{i}', fx.InvestParameters(
            **ia, fix_effects=fix, specific_effects=a2, divest_effects={other: div})))
    m = c.model(fs)
    want = {'costs': 0, 'co2': 0}
    for i in range(2):
        S = m.comp(*paths[i], 'size')
        inv = m.comp(*paths[i], 'isInvested') if opt[i] else 1
        fix, spec, div = parts[i]
        want['costs'] = want['costs'] + inv * fix + S * spec['costs']
        want['co2'] = want['co2'] + S * spec['co2'] + (1 - inv) * div
    for lab in want:
        c.sound(m, f'investment part of {lab}', m.effect(lab, 'invest', 'sum') == want[lab])


@harness('C10', quick=grid(what=['flow', 'storage'], optional=[True, False], k=[1, 2], effects=[1])
         + grid(what=['flow'], optional=[True, False], k=[2, 3], effects=[2]),
         bounds='one to three segments, one or two effects')
def segmented(c, what, optional, k, effects, n=2):
    other = fx.Effect('co2', 'kg', 'co2')
    fs, dt, costs = system(c, n, effects=[other])
    xs = [(c.real(f'x{i}a', 0, 1000), c.real(f'x{i}b', 0, 1000)) for i in range(k)]
    for a, b in xs:
        c.assume(b >= a)
    labs = ['costs', 'co2'][:effects]
    es = {lab: [(c.real(f'{lab}{i}a', -LIM, LIM), c.real(f'{lab}{i}b', -LIM, LIM)) for i in range(k)] for lab in labs}
    fix = c.real('fix', -LIM, LIM)
    inv = fx.InvestParameters(maximum_size=1000, optional=optional, fix_effects=fix, effects_in_segments=(
        xs, {(costs if lab == 'costs' else other): v for lab, v in es.items()}))
    path = flow_or_storage(c, fs, what, 'u', inv)
    m = c.model(fs)
    S = m.comp(*path, 'size')
    on = m.comp(*path, 'isInvested') if optional else 1
    e = {lab: m.effect(lab, 'invest', 'sum') - (on * fix if lab == 'costs' else 0) for lab in labs}
    # for a segment of positive width the effect is a function of the size
    cases = []
    for i in range(k):
        a, b = xs[i]
        s = [S >= a, S <= b]
        for lab in labs:
            p, q = es[lab][i]
            s.append(conj((b - a) * (e[lab] - p) == (S - a) * (q - p), e[lab] >= smin(p, q), e[lab] <= smax(p, q)))
        cases.append(conj(*s))
    seg = disj(*cases)
    if optional:
        c.sound(m, 'left out: no size and no effects', implies(on == 0, conj(S == 0, *[e[lab] == 0 for lab in labs])))
        seg = implies(on == 1, seg)
    c.sound(m, 'size lies in a segment and its effects are interpolated there', seg)
    base = (*path, 'SegmentedShares', 'MultipleSegments')
    lam = []
    for i in range(k):
        lam.append([m.comp(*base, f'Segment_{i}', x) for x in ('inSegment', 'lambda0', 'lambda1')])
    spec = [is01(x[0]) for x in lam] + [conj(x[1] >= 0, x[2] >= 0, x[1] + x[2] == x[0]) for x in lam]
    tot = total(x[0] for x in lam)
    spec.append(tot == (on if optional else 1))
    if optional:
        # an investment below the threshold size does not exist
        spec += [is01(on), implies(on == 1, total(xs[i][0] * lam[i][1] + xs[i][1] * lam[i][2] for i in range(k)) >= EPS)]
    if what == 'storage':  # starts empty and may stay so
        cs = m.comp('u', 'charge_state')
        wit = [(cs, [0] * (n + 1))]
    else:
        r = rate(m, 'u', 'f')
        wit = [(r, [0] * n)] + excess(m, 'bu', [0] * n)
    main = [y for x in lam for y in x] + ([on] if optional else [])
    if what == 'flow':
        c.complete(m, 'every point of every segment is possible', conj(*spec), main, wit)
