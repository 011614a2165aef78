"""Decides one property: every harness configuration is run symbolically in its own process."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
TRUSTED = [
    'z3 (linear real/integer arithmetic, nlsat for products of parameters)',
    'the stand-ins for numpy and pyomo used during symbolic execution (vf/npshim.py, vf/pyostub.py); every run compares '
    'the rows they produce with the rows of the real Pyomo model on sampled parameters (traces_validated_against_impl)',
    'numbers are exact rationals: floating-point rounding is outside the claims',
]


def job(conn, prop, name, cfg, tier, seed, budget):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from . import core, reg

    try:
        e = reg.find(prop, name)
        o = {k: v for k, v in e.opts.items() if k in ('max_paths', 'validate', 'extra_patches')}
        if tier == 'thorough':
            o['validate'] = 6
        r = dict(core.run_config(e.fn, cfg, seed=seed, tier=tier, budget=budget, **o))
    except BaseException as ex:  # noqa: B036 - reported as an inconclusive configuration
        r = dict(cfg=cfg, status='crashed', crash=f'{type(ex).__name__}: {ex} ' + traceback.format_exc()[-800:])
    conn.send(r)
    conn.close()


def known_findings(prop):
    p = os.path.join(HOME, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get('property') == prop and f.get('status') == 'open']


def matches(f, v):
    return (f['harness'] == v['harness'] and all(json.loads(json.dumps(v['cfg'].get(k), default=str)) == x for k, x in f.get('cfg', {}).items())
            and re.search(f['detail'], v['detail'] or '') is not None)


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    limit = float(os.environ.get('VERIF_LIMIT', 240 if tier == 'quick' else 800))
    from . import core, reg

    import flixOpt  # noqa: F401  imported once, inherited by the workers

    assert flixOpt.__file__.startswith(REPO), flixOpt.__file__
    entries = reg.load().get(prop, [])
    if not entries:
        print(f'no harness for {prop}')
        return 2
    todo = [(e, cfg) for e in entries for cfg in e.cfgs(tier)]
    todo.sort(key=lambda x: -x[0].opts.get('cost', 1))
    ncpu = min(8, os.cpu_count() or 1)
    per = limit * 0.8
    running, done = [], []
    ctx = mp.get_context('fork')
    violated = 0
    while todo or running:
        now = time.time()
        while todo and len(running) < ncpu and now - t0 < limit and violated < 3:
            e, cfg = todo.pop(0)
            a, b = ctx.Pipe(False)
            budget = min(e.opts.get('budget', 60 if tier == 'quick' else 400), max(5, limit - (now - t0) - 5))
            p = ctx.Process(target=job, args=(b, prop, e.name, cfg, tier, seed, budget))
            p.start()
            b.close()
            running.append((p, a, e, cfg, now + budget * 1.6 + 20))
        if todo and (now - t0 >= limit or violated >= 3):
            for e, cfg in todo:
                done.append((e, dict(cfg=cfg, status='skipped')))
            todo = []
        still = []
        for p, a, e, cfg, dl in running:
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(cfg=cfg, status='crashed', crash='worker ended')
                p.join(5)
                done.append((e, r))
                if r['status'] == 'violation' and not any(
                        matches(f, dict(harness=e.name, cfg=r['cfg'], detail=r['violation']['detail'])) for f in known_findings(prop)):
                    violated += 1
            elif not p.is_alive():
                done.append((e, dict(cfg=cfg, status='crashed', crash=f'worker exit {p.exitcode}')))
            elif now > dl or now - t0 > limit * 1.5:
                p.kill()
                p.join()
                done.append((e, dict(cfg=cfg, status='timeout')))
            else:
                still.append((p, a, e, cfg, dl))
        running = still
        time.sleep(0.01)
    del per

    rdir = os.environ.get('VERIF_REPLAYS') or os.path.join(HOME, 'replays')
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(prop)
    hits, new, unreproduced = [], [], []
    for e, r in done:
        if r['status'] != 'violation':
            continue
        v = dict(property=prop, harness=e.name, cfg=r['cfg'], values=r['violation']['values'], detail=r['violation']['detail'],
                 why=r['violation']['why'], seed=0)
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f'{prop}-{e.name}-{h}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        if len(new) >= 3:
            continue
        again = False
        for _ in range(5):  # flixOpt iterates over sets of objects: the order differs between processes
            try:
                pr = subprocess.run([sys.executable, '-m', 'vf.replay', path], capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                break
            if pr.returncode == 1 and pr.stdout.startswith('violation'):
                again = True
                v['detail'] = pr.stdout.strip()[len('violation '):]
                break
        if not again:
            unreproduced.append((v, path))
            continue
        f = next((f for f in known if matches(f, v)), None)
        if f:
            hits.append((f, v))
        else:
            new.append((v, path))

    write_evidence(prop, tier, seed, entries, done, new, hits, unreproduced, time.time() - t0)
    shown = set()
    for f, v in hits:
        if f['id'] not in shown:
            shown.add(f['id'])
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    n = len(done)
    ok = sum(r['status'] == 'ok' and not r['inconclusive'] and not r['degraded'] and not r['truncated'] for _, r in done)
    print(f'{prop} {tier}: {n} configurations, {ok} fully decided, '
          f"{sum(r.get('claims', 0) for _, r in done)} claims, {sum(r.get('proved', 0) for _, r in done)} proved, "
          f"{sum(r.get('paths', 0) for _, r in done)} paths, {time.time() - t0:.1f} s")
    lines = []
    for e, r in done:
        for x in ([r['status'] + ' ' + r.get('crash', '')] if r['status'] in ('crashed', 'timeout', 'skipped') else []) + \
                r.get('inconclusive', [])[:3] + ([r['degraded']] if r.get('degraded') else []) + \
                (['paths truncated'] if r.get('truncated') else []):
            lines.append(f"  inconclusive: {e.name} {r['cfg']}: {x[:600]}")
        if r.get('vacuous'):
            lines.append(f"  note: {e.name} {r['cfg']}: no solution for sampled parameters {r['vacuous'][0][:150]}")
    print(*lines[:12], *([f'  ... {len(lines) - 12} more'] if len(lines) > 12 else []), sep='\n', end='\n' if lines else '')
    for v, path in unreproduced:
        print(f"  not reproduced in a fresh process: {v['harness']} {v['cfg']}: {v['detail'][:300]} ({path})")
    for v, path in new:
        print(f"  {v['harness']} {v['cfg']}: {v['detail'][:700]}")
        print(f"    inputs: {json.dumps(v['values'])[:700]}")
        print(f'VIOLATION property={prop} replay={path}')
    return 1 if new else 0


def write_evidence(prop, tier, seed, entries, done, new, hits, unreproduced, wall):
    def tot(k):
        return sum(r.get(k, 0) for _, r in done if isinstance(r.get(k, 0), int))

    def st(k):
        return sum(r['stats'][k] for _, r in done if 'stats' in r)

    samples, funcs = [], set()
    for e, r in done:
        funcs |= set(r.get('functions', []))
        for s in r.get('samples', [])[:1]:
            if len(samples) < 6:
                samples.append(dict(harness=e.name, cfg=r['cfg'], inputs=s))
    if not samples:
        samples = [dict(harness=e.name, cfg=r['cfg']) for e, r in done[:3]]
    incon = [dict(harness=e.name, cfg=r['cfg'],
                  why=(r.get('inconclusive') or [r.get('degraded') or r.get('crash') or r['status']])[0][:400])
             for e, r in done if r['status'] in ('crashed', 'timeout', 'skipped') or r.get('inconclusive') or r.get('degraded') or r.get('truncated')]
    cov = dict(
        states=tot('paths'),
        transitions=st('branches'),
        traces_validated_against_impl=tot('validated'),
        samples=samples,
        explanation='states: feasible symbolic execution paths of the real code (one per combination of branch outcomes that '
                    'the solver found possible); transitions: branch decisions taken on those paths; '
                    'traces_validated_against_impl: paths on which the symbolic rows agreed with the real Pyomo model for sampled inputs',
        configurations=len(done),
        configurations_fully_decided=sum(r['status'] == 'ok' and not r['inconclusive'] and not r['degraded'] and not r['truncated'] for _, r in done),
        claims=tot('claims'),
        claims_proved=tot('proved'),
        functions_encoded=sorted(funcs),
        queries=st('queries'),
        queries_unsat=st('unsat'),
        queries_sat=st('sat'),
        queries_unknown=st('unknown'),
        queries_nonlinear=st('nl_queries'),
        solver_s=round(st('solver_s'), 2),
        concrete_runs=tot('num_runs'),
        paths_with_reachable_model=tot('reached'),
        bounds=[f"{e.name}: {e.opts.get('bounds', '')}" + (f' [{len(e.cfgs(tier))} configurations]') for e in entries],
        inconclusive=incon[:20],
        known_findings=sorted({f['id'] for f, _ in hits}),
        not_reproduced=[v['detail'][:200] for v, _ in unreproduced][:5],
        exhaustive=False,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=TRUSTED
              + sorted({a for e in entries for a in e.opts.get('assumptions', ())}), wall_s=round(wall, 2), violations=len(new))
    d = os.path.join(HOME, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{prop}.json')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f'{prop}.json'))


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
