import contextlib
import os

from flixOpt import CONFIG
from flixOpt import config as module

from ..files import files
from ..reg import grid, harness
from .c04_onoff import switch_witness
from .c25_tables import solved
from .common import *

"""settings of the modelling: default size and threshold; free values instead of those of the default file"""


@contextlib.contextmanager
def settings(**given):
    """as if the file of settings held these values"""
    d = CONFIG.modeling.__dict__
    old = dict(d)
    d.update(given)
    try:
        yield
    finally:
        d.clear()
        d.update(old)


def free(c):
    return dict(BIG=c.real('big', 100, 10**6), EPSILON=c.real('eps', Fraction(1, 10**6), Fraction(1, 10)))


@harness('C33', quick=grid(hi=['default', 'scalar', 'array'], onoff=[False, True], side=['source', 'sink']), bounds='2 steps, a flow without a size')
def default_size(c, hi, onoff, side, n=2):
    with settings(**free(c)):
        big, eps = CONFIG.modeling.BIG, CONFIG.modeling.EPSILON
        fs, dt, costs = system(c, n)
        args, rmax = {}, [1] * n
        if hi != 'default':
            args['relative_maximum'], rmax = series(c, 'rmax', hi, n, lo=0.01, hi=1)
        if onoff:
            args['on_off_parameters'] = fx.OnOffParameters()
        unit(c, fs, open_bus(), side, args)
        m = c.model(fs)
        r = rate(m, 'u', 'f')
        wit = excess(m, 'bus', r if side == 'source' else [-x for x in r])
        main = [r]
        if onoff:
            on = m.comp('u', 'f', 'OnOff', 'on')
            spec = [conj(is01(on[t]), implies(on[t] == 0, r[t] == 0), implies(on[t] == 1, conj(r[t] >= eps, r[t] <= rmax[t] * big))) for t in range(n)]
            wit += switch_witness(m, ('Components', 'u', 'f', 'OnOff'), on)
            main.append(on)
        else:
            spec = [conj(r[t] >= 0, r[t] <= rmax[t] * big) for t in range(n)]
        for t in range(n):
            c.sound(m, f'not above the configured size, at step {t}', spec[t])
        c.complete(m, 'every rate up to the configured size is possible', conj(*spec), main, wit)


@harness('C33', quick=grid(optional=[True, False], lo=[True, False], hi=[True, False]), bounds='2 steps, an investment without or with limits')
def default_investment(c, optional, lo, hi, n=2):
    with settings(**free(c)):
        big, eps = CONFIG.modeling.BIG, CONFIG.modeling.EPSILON
        fs, dt, costs = system(c, n)
        ia, least, most = {}, 0, big
        if hi:
            ia['maximum_size'] = most = c.real('most', 1, 10**4)
        if lo:
            ia['minimum_size'] = least = c.real('least', 0, 1)
        unit(c, fs, open_bus(), 'source', dict(size=fx.InvestParameters(optional=optional, **ia)))
        m = c.model(fs)
        S, r = m.comp('u', 'f', 'Investment', 'size'), rate(m, 'u', 'f')
        flow = conj(*[conj(x >= 0, x <= S) for x in r])
        main = [S, r]
        if optional:
            inv = m.comp('u', 'f', 'Investment', 'isInvested')
            spec = conj(is01(inv), implies(inv == 0, S == 0), implies(inv == 1, conj(S >= smax(least, eps), S <= most)), flow)
            main.append(inv)
        else:
            spec = conj(S >= least, S <= most, flow)
        c.sound(m, 'size within the configured limits', spec)
        c.complete(m, 'every size up to the configured one is possible', spec, main, excess(m, 'bus', r))


@harness('C33', quick=grid(lo=['default', 'scalar', 'array'], flows=[1, 2]), bounds='2 steps, a component with 1-2 flows')
def threshold(c, lo, flows, n=2):
    from flixOpt.elements import Component

    with settings(**free(c)):
        eps = CONFIG.modeling.EPSILON
        fs, dt, costs = system(c, n)
        S, rmin, out = [], [], []
        for i in range(flows):
            args = dict(size=c.real(f'size{i}', 1, 10**3))
            S.append(args['size'])
            low = [0] * n
            if lo != 'default':
                args['relative_minimum'], low = series(c, f'rmin{i}', lo, n, lo=0, hi=1)
            rmin.append(low)
            if flows == 1:
                args['on_off_parameters'] = fx.OnOffParameters()
            out.append(fx.Flow(f'f{i}', open_bus(f'bus{i}'), **args))
        comp = Component('u', outputs=out, on_off_parameters=fx.OnOffParameters() if flows > 1 else None)
        fs.add_components(comp)
        m = c.model(fs)
        path = ('u', 'f0', 'OnOff') if flows == 1 else ('u', 'OnOff')
        on = m.comp(*path, 'on')
        for t in range(n):
            rs = [rate(m, 'u', f.label)[t] for f in out]
            c.sound(m, f'off means zero at step {t}', implies(on[t] == 0, conj(*[r == 0 for r in rs])))
            if flows == 1:
                c.sound(m, f'on means at least the configured threshold at step {t}', implies(on[t] == 1, rs[0] >= smax(eps, rmin[0][t] * S[0])))
            else:
                c.sound(m, f'on means that one flow runs at step {t}', implies(on[t] == 1, disj(*[r >= eps * Fraction(1, flows) for r in rs])))
        if flows == 1:
            r = rate(m, 'u', 'f0')
            spec = conj(*[conj(is01(on[t]), implies(on[t] == 0, r[t] == 0), implies(on[t] == 1, conj(r[t] >= smax(eps, rmin[0][t] * S[0]), r[t] <= S[0]))) for t in range(n)])
            c.complete(m, 'every rate from the threshold on is possible', spec, [r, on], excess(m, 'bus0', r) + switch_witness(m, ('Components', *path), on))


@harness('C33', quick=grid(k=[0, 1, 2]), bounds='up to 2 earlier rates, above and below the threshold')
def before(c, k, n=2):
    """a start in the first step is counted if the flow was off before, that is: not above the configured threshold"""
    with settings(**free(c)):
        eps = CONFIG.modeling.EPSILON
        fs, dt, costs = system(c, n)
        xs = [c.real(f'prev{i}', 0, 1) for i in range(max(k, 1))]
        for x in xs:
            c.assume(disj(x < eps * Fraction(99, 100), x > eps * Fraction(101, 100)))
        unit(c, fs, open_bus(), 'source', dict(size=100, previous_flow_rate=c.pack(xs) if k else xs[0], on_off_parameters=fx.OnOffParameters(effects_per_switch_on=1)))
        m = c.model(fs)
        o = ('u', 'f', 'OnOff')
        on, start, stop = m.comp(*o, 'on'), m.comp(*o, 'switchOn'), m.comp(*o, 'switchOff')
        was = c.ite(xs[-1] > eps, 1, 0)
        c.sound(m, 'starts and stops in the first step', start[0] - stop[0] == on[0] - was)


@harness('C33', quick=grid(source=['default', 'user']), bounds='all valid values of the settings')
def loaded(c, source):
    """the settings of the file are those in force, and are saved with the results"""
    want = dict(BIG=100 + int(bool(c.flag('big') == 1)), EPSILON=c.real('eps', Fraction(1, 10**6), Fraction(1, 10)), BIG_BINARY_BOUND=7)
    data = dict(config_name='mine', logging=dict(level='CRITICAL', file='', rich=False), modeling=dict(want))
    opened = []
    old = {k: getattr(module, k, None) for k in ('yaml', 'setup_logging')}
    state = CONFIG.modeling, CONFIG.logging, CONFIG.config_name

    class Yaml:
        @staticmethod
        def safe_load(f):
            opened.append(f.name)
            return data

    module.yaml, module.setup_logging = Yaml, lambda *a, **k: None
    try:
        CONFIG.load_config(None if source == 'default' else __file__)
        c.holds('the right file is read', os.path.basename(opened[0]) == ('config.yaml' if source == 'default' else os.path.basename(__file__)))
        have = CONFIG.to_dict()
        for k, v in want.items():
            c.holds(f'{k} is in force', getattr(CONFIG.modeling, k) == v)
            c.holds(f'{k} is reported', have['modeling'][k] == v)
    finally:
        CONFIG.modeling, CONFIG.logging, CONFIG.config_name = state
        for k, v in old.items():
            setattr(module, k, v)


@harness('C33', quick=grid(kind=['storage', 'onoff']), bounds='2 steps')
def reported(c, kind):
    with settings(**free(c)):
        d = dict(CONFIG.modeling.__dict__)
        with files(c) as where:
            fs, want, res = solved(c, kind, where, n=2, lo=1, hi=50)
        got = res.calculation_infos['Model']['Config']['modeling']
        c.holds('all settings are saved', set(got) == set(d))
        for k in d:
            c.holds(f'{k} as saved', got[k] == d[k])


@harness('C33', quick=grid(name=['BIG', 'EPSILON', 'BIG_BINARY_BOUND'], value=['text', None, 'kind', 'fine']), bounds='values of the wrong kind')
def invalid(c, name, value):
    """a setting of the wrong kind is refused and leaves the settings as they were"""
    d = CONFIG.modeling.__dict__
    old = dict(d)
    x = {'text': '12', None: None, 'kind': 1.5 if name.startswith('BIG') else 3, 'fine': 12 if name.startswith('BIG') else 0.5}[value]
    try:
        r = c.raises(lambda: setattr(CONFIG.modeling, name, x), AssertionError, TypeError, ValueError)
        c.holds('refused if it is of the wrong kind', r == (value != 'fine'))
        c.holds('other settings stay', {k: v for k, v in d.items() if k != name} == {k: v for k, v in old.items() if k != name})
        c.holds('the setting', d[name] == (x if value == 'fine' else old[name]))
    finally:
        d.clear()
        d.update(old)


@harness('C33', quick=grid(fault=['none', 'kind', 'missing value', 'no file', 'level']), bounds='files with one fault')
def refused_file(c, fault):
    """a file with a fault is refused and the settings stay"""
    eps = c.real('eps', Fraction(1, 10**6), Fraction(1, 10))
    data = dict(config_name='mine', logging=dict(level='CRITICAL', file='x', rich=False), modeling=dict(BIG=77, EPSILON=eps, BIG_BINARY_BOUND=7))
    if fault == 'kind':
        data['modeling']['BIG'] = 'much'
    elif fault == 'missing value':
        del data['modeling']['BIG_BINARY_BOUND']
    elif fault == 'level':
        data['logging']['level'] = 'LOUD'
    old = {k: getattr(module, k, None) for k in ('yaml', 'setup_logging')}
    state = CONFIG.modeling, CONFIG.logging, CONFIG.config_name
    before_ = dict(CONFIG.modeling.__dict__)

    class Yaml:
        @staticmethod
        def safe_load(f):
            return data

    module.yaml, module.setup_logging = Yaml, lambda *a, **k: None
    try:
        r = c.raises(lambda: CONFIG.load_config('/nowhere/at all.yaml' if fault == 'no file' else __file__), AssertionError, TypeError, ValueError, FileNotFoundError)
        c.holds('refused if there is a fault', r == (fault != 'none'))
        have = CONFIG.modeling.__dict__
        for k, v in before_.items():
            c.holds(f'{k}', have[k] == (data['modeling'][k] if fault == 'none' else v))
    finally:
        CONFIG.modeling, CONFIG.logging, CONFIG.config_name = state
        for k, v in old.items():
            setattr(module, k, v)
