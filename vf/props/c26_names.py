from ..reg import grid, harness
from .common import *

ROLES = ['u', 'v', 'b1', 'b2', 'e2']


def naming(c, roles, fresh='n'):
    """every coincidence of names among the roles (explored case by case)"""
    out, classes = {}, 0
    for r in roles:
        k = 0
        while k < classes and not bool(c.flag(f'{r} is named like {k}') == 1):
            k += 1
        classes = max(classes, k + 1)
        out[r] = f'{fresh}{k}'
    return out


def parts(c, kind, names, flows):
    costs = fx.Effect('costs', 'EUR', 'costs', is_standard=True, is_objective=True)
    e2 = fx.Effect(names['e2'], 'kg', 'co2', specific_share_to_other_effects_operation={costs: c.real('sh', 0.1, 3)})
    b1, b2 = fx.Bus(names['b1'], excess_penalty_per_flow_hour=c.real('p1', 1, 50)), fx.Bus(names['b2'], excess_penalty_per_flow_hour=c.real('p2', 1, 50))
    u = fx.Source(names['u'], source=fx.Flow(flows[0], b1, size=c.real('s', 5, 30), effects_per_flow_hour={e2: c.real('k', 0.1, 5)}))
    a, q = fx.Flow(flows[1], b1, size=10), fx.Flow(flows[2], b2, size=10, relative_maximum=c.arr('hi', 3, 0.5, 1))
    if kind == 'converter':
        v = fx.LinearConverter(names['v'], inputs=[a], outputs=[q], conversion_factors=[{a: c.arr('ca', 3, 0.5, 5), q: 1}], on_off_parameters=fx.OnOffParameters(effects_per_switch_on=c.real('sw', 1, 5)))
    elif kind == 'storage':
        v = fx.Storage(names['v'], charging=a, discharging=q, capacity_in_flow_hours=50, initial_charge_state=c.real('q0', 5, 10), eta_charge=c.arr('ec', 3, 0.5, 1))
    else:
        v = fx.Transmission(names['v'], in1=a, out1=q, relative_losses=c.arr('rl', 3, 0, 0.5), absolute_losses=0)
    return dict(costs=costs, e2=e2, u=u, v=v)


ORDERS = {'effects first': ['costs', 'e2', 'u', 'v'], 'components first': ['u', 'v', 'costs', 'e2'], 'reversed': ['v', 'u', 'e2', 'costs'], 'mixed': ['v', 'e2', 'u', 'costs']}
OWN = dict(u='u', v='v', b1='b1', b2='b2', e2='e2')


def clash(names, flows):
    return len(set(names.values())) < len(names) or flows[1] == flows[2]


def base(c):
    ts, dt = c.time(3)
    return fx.FlowSystem(ts, previous_dt_in_hours=c.real('pdt', 0.25, 24))


def renamed(names, flows):
    """the result path of an entry of the plainly named system in the system with other names"""
    def go(path):
        group, label, *rest = path
        if group == 'Components':
            if rest and rest[0] in ('f', 'a', 'q'):
                rest = [flows['faq'.index(rest[0])]] + rest[1:]
            return (group, names[label], *rest)
        if group == 'Buses':
            return (group, names[label], *rest)
        if group == 'Effects':
            rest = [share(x) if isinstance(x, str) else x for x in rest]
            return (group, names.get(label, label), *rest)
        return path

    def share(x):
        for r in ROLES:
            for f, g in zip('faq', flows):
                if x.startswith(f'{r}__{f}__'):
                    return f'{names[r]}__{g}__' + x[len(f'{r}__{f}__'):]
            if x.startswith(f'{r}_'):
                return names[r] + x[len(r):]
        return x
    return go


@harness('C26', quick=grid(kind=['converter', 'storage'], order=list(ORDERS)) + grid(kind=['line'], order=['effects first', 'reversed']), bounds='3 steps; all coincidences of the names of two components, two buses and an effect, equal or different flow names')
def names(c, kind, order):
    names = naming(c, ROLES)
    flows = ['n0', 'n0', 'n1'] if bool(c.flag('flow names differ') == 1) else ['n1', 'n0', 'n0']
    fs, error = base(c), None
    p = parts(c, kind, names, flows)
    try:
        for k in ORDERS[order]:
            fs.add_elements(p[k])
        m = c.model(fs)
    except Exception as e:
        error = e
    if clash(names, flows):
        c.holds('a clash of names is refused', error is not None)
        return
    c.holds('distinct names are accepted', error is None)
    if error is None:
        fs = base(c)
        fs.add_elements(*parts(c, kind, OWN, ['f', 'a', 'q']).values())
        c.same(m, c.model(fs), 'names do not matter', renamed(names, flows))


def full(c):
    fs = base(c)
    p = parts(c, 'converter', OWN, ['f', 'a', 'q'])
    fs.add_elements(*p.values())
    return fs, p


def attempt(c, fs, p, what):
    b1, b2 = fs.buses['b1'], fs.buses['b2']
    flow = lambda bus, label='x': fx.Flow(label, bus, size=5, effects_per_flow_hour=c.real('kx', 1, 5))  # noqa: E731
    new = {
        'same component': lambda: [p['u']],
        'same effect': lambda: [p['e2']],
        'component label': lambda: [fx.Sink('v', sink=flow(b1))],
        'component like bus': lambda: [fx.Sink('b2', sink=flow(b1))],
        'component like effect': lambda: [fx.Source('e2', source=flow(b1))],
        'component like own bus': lambda: [fx.Source('w', source=flow(fx.Bus('w', excess_penalty_per_flow_hour=1)))],
        'effect label': lambda: [fx.Effect('e2', '', '')],
        'effect like component': lambda: [fx.Effect('u', '', '')],
        'effect like bus': lambda: [fx.Effect('b1', '', '')],
        'other bus of that name': lambda: [fx.Source('w', source=flow(fx.Bus('b1', excess_penalty_per_flow_hour=1)))],
        'bus like component': lambda: [fx.Source('w', source=flow(fx.Bus('u', excess_penalty_per_flow_hour=1)))],
        'bus like effect': lambda: [fx.Sink('w', sink=flow(fx.Bus('costs', excess_penalty_per_flow_hour=1)))],
        'two buses of one name': lambda: [fx.SourceAndSink('w', source=flow(fx.Bus('n', excess_penalty_per_flow_hour=1)), sink=flow(fx.Bus('n', excess_penalty_per_flow_hour=1), 'y'))],
        'two flows of one name': lambda: [fx.SourceAndSink('w', source=flow(b1), sink=flow(b2))],
        'one flow twice': lambda: [(lambda x: fx.SourceAndSink('w', source=x, sink=x))(flow(b1))],
        'second standard': lambda: [fx.Effect('e3', '', '', is_standard=True)],
        'second objective': lambda: [fx.Effect('e3', '', '', is_objective=True)],
        'bus itself': lambda: [fx.Bus('b3')],
        'flow itself': lambda: [flow(b1)],
    }[what]()
    fs.add_elements(*new)


WHAT = ['same component', 'same effect', 'component label', 'component like bus', 'component like effect', 'component like own bus', 'effect label', 'effect like component', 'effect like bus',
        'other bus of that name', 'bus like component', 'bus like effect', 'two buses of one name', 'two flows of one name', 'one flow twice', 'second standard', 'second objective', 'bus itself', 'flow itself']


@harness('C26', quick=grid(what=WHAT, before=[False, True]), bounds='3 steps; a refused addition, before or after a model was built')
def refused(c, what, before):
    fs, p = full(c)
    if before:
        c.model(fs)
    error = c.raises(lambda: attempt(c, fs, p, what))
    c.holds('refused', error)
    if error:
        c.same(c.model(full(c)[0]), c.model(fs), 'the system is unchanged')


@harness('C26', quick=grid(n=[2, 3]), thorough=grid(n=[4]), bounds='2-4 effects, every choice of the standard and the objective effect')
def roles(c, n):
    std, obj = [bool(c.flag(f'std{i}') == 1) for i in range(n)], [bool(c.flag(f'obj{i}') == 1) for i in range(n)]
    fs, effects, error = base(c), [], None
    for i in range(n):
        effects.append(fx.Effect(f'e{i}', '', '', is_standard=std[i], is_objective=obj[i], specific_share_to_other_effects_operation={effects[0]: c.real(f'sh{i}', 0.1, 2)} if i else {}))
        try:
            fs.add_elements(effects[i])
        except Exception as e:
            error = e
            break
    c.holds('refused exactly if there would be two of a kind', (error is not None) == (sum(std) > 1 or sum(obj) > 1))
    if error is not None or sum(obj) != 1:
        return
    bus = fx.Bus('b', excess_penalty_per_flow_hour=c.real('p', 1, 50))
    plain = c.real('k', 0.1, 5)
    eff = plain if sum(std) == 1 else {effects[0]: plain}
    fs.add_elements(fx.Source('u', source=fx.Flow('f', bus, size=5, effects_per_flow_hour=eff)))
    m = c.model(fs)
    to = std.index(True) if sum(std) else 0
    costs = m.effect(f'e{to}', 'operation', 'sum')
    rate = rate_of(m)
    own = dot(rate, [plain * d for d in dts(c)])
    if to == 0:
        other = total([c.real(f'sh{i}', 0.1, 2) * m.effect(f'e{i}', 'operation', 'sum')[0] if isinstance(m.effect(f'e{i}', 'operation', 'sum'), list) else c.real(f'sh{i}', 0.1, 2) * m.effect(f'e{i}', 'operation', 'sum') for i in range(1, n)])
        own = own + other
    c.sound(m, 'plain effect values count for the standard effect', scalar(costs) == own)
    k = obj.index(True)
    c.sound(m, 'the objective effect is minimised', m.objective == scalar(m.effect(f'e{k}', 'all', 'sum')) + scalar(m.v('Effects', 'penalty', 'penalty_sum')))


def scalar(x):
    return x[0] if isinstance(x, list) else x


def rate_of(m):
    return m.comp('u', 'f', 'flow_rate')


def dts(c):
    dt = [c.real(f'dt{i}', 0.25, 24) for i in range(2)]
    return dt + [dt[-1]]


ENTRIES = {'converter': ['OnOff', 'on', 'off', 'switch_on'], 'storage': ['charge_state', 'netto_discharge', 'capacity', 'Investment'], 'line': ['OnOff', 'absolute_losses']}


@harness('C26', quick=[dict(kind=k, label=l) for k, ls in ENTRIES.items() for l in ls] + [dict(kind='effect', label=l) for l in ['penalty', 'Effects', 'Time', 'operation', 'Objective', 'all']], bounds='3 steps; names that also occur as names of results')
def result_names(c, kind, label):
    names, flows, error = dict(OWN), ['f', 'a', 'q'], None
    if kind == 'effect':
        names['e2'] = label
    else:
        flows[1] = label
    fs, ref = base(c), base(c)
    try:
        fs.add_elements(*parts(c, 'converter' if kind == 'effect' else kind, names, flows).values())
        m = c.model(fs)
    except Exception as e:
        error = e
    if error is None:
        ref.add_elements(*parts(c, 'converter' if kind == 'effect' else kind, OWN, ['f', 'a', 'q']).values())
        c.same(m, c.model(ref), 'same as with other names', renamed(names, flows))
    else:
        c.holds('refused', True)
