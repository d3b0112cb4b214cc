"""C21: the step of the selected subspace solver, judged by SolverTrace.tla."""
import inspect

import numpy as np

import scen
from common import SEED, THOROUGH, mat, need, num, pmap, tlc, tlc_cases, vec
from suite_step import Collector, call, coleman_li, f1, rand_inputs
from suite_sub import fl, takes

import fides.minimize as fmin
import fides.trust_region as ftr

INVARIANTS = ('InRegion', 'Residual', 'Conjugate', 'Ends', 'Cauchy', 'Reason')


def complete(c, B):
    """Adds the step before step-back, and a direction of lowest curvature."""
    if 'err' in c:
        return c
    free = all(v == '-inf' for v in c['lb']) and all(v == 'inf' for v in c['ub'])
    if c['cands'] and c['cands'][0].get('og_ss') is not None:
        c['base'] = c['cands'][0]['og_ss']
    elif free:
        c['base'] = vec(np.array([float(v) for v in c['ret']['ss']])
                        + np.array([float(v) for v in c['ret']['ss0']]))
    c['wit'] = vec(np.linalg.eigh(0.5 * (B + B.T))[1][:, 0])
    for k in ('cands', 'ret'):
        c.pop(k, None)
    return c


def model(c):
    v, dv = coleman_li(c['x'], c['g'], c['lb'], c['ub'])
    d = np.sqrt(np.abs(v))
    return d[:, None] * c['h'] * d + np.diag(np.abs(c['g']) * dv)


def rand(seed):
    rng = np.random.default_rng([seed, 2121])
    c = rand_inputs(seed)
    n = len(c['x'])
    c['strat'] = str(rng.choice(['reflect', 'truncate', 'reflect_single']))
    c['solver'] = str(rng.choice(['2D', 'full', 'scg'], p=[.4, .15, .45]))
    if rng.random() < .5:
        c['lb'], c['ub'] = np.full(n, -np.inf), np.full(n, np.inf)
    B = model(c)
    u = rng.random()
    with np.errstate(all='ignore'):
        # radii around the lengths at which the step changes its nature
        v, _ = coleman_li(c['x'], c['g'], c['lb'], c['ub'])
        sg = np.sqrt(np.abs(v)) * c['g']
        ref = np.linalg.norm(np.linalg.lstsq(B, sg, rcond=None)[0])
        if u < .3:
            ref = np.dot(sg, sg) ** 1.5 / max(abs(sg @ B @ sg), 1e-300)
        if u < .8 and np.isfinite(ref) and 1e-8 < ref < 1e8:
            c['delta'] = float(ref * 10 ** rng.uniform(-1.2, .8))
    if rng.random() < .3:        # the residual tolerance depends on the size
        c['g'] = c['g'] * 10 ** rng.uniform(-6, 3)
        B = model(c)
    return complete(call(c), B)


# --------------------------------------------- calls made by real runs
def harvest(seed):
    """Calls of the step computation made by one run of the optimizer."""
    rng = np.random.default_rng([seed, 2122])
    sc = scen.scenario(seed, str(rng.choice(['script', 'smooth'])), nmax=5,
                       scheme=str(rng.choice(['exact', 'BFGS', 'SR1', 'DFP'])),
                       solver=str(rng.choice(['2D', 'full', 'scg'])),
                       strat=str(rng.choice(['reflect', 'truncate', 'mixed'])))
    cases = []
    orig = fmin.trust_region
    sig = inspect.signature(orig)

    def spy(*a, **kw):
        b = sig.bind(*a, **kw).arguments
        d = b['scaling'].diagonal()
        c = dict(n=len(b['x']), x=vec(b['x']), g=vec(b['g']), h=mat(b['hess']), lb=vec(b['lb']),
                 ub=vec(b['ub']), scal=vec(d), dv=vec(b['dv']), theta=num(b['theta']),
                 delta=num(b['delta']), solver=sc['solver'], seed=int(seed))
        B = d[:, None] * b['hess'] * d + np.diag(np.abs(b['g']) * b['dv'])
        with Collector() as col:
            st = orig(*a, **kw)
        base = [s for s in col.steps if s.type in ('2d', 'nd', 'cgs')]
        og = getattr(base[0], 'og_ss', None) if base else None
        if og is not None:
            c['base'] = f1(og)
            c['wit'] = vec(np.linalg.eigh(0.5 * (B + B.T))[1][:, 0])
            cases.append(c)
        return st
    fmin.trust_region = spy
    try:
        scen.run_scenario(sc)
    finally:
        fmin.trust_region = orig
    return cases[:12]


def judge(rep, cases, name):
    for c in cases:
        if 'err' in c:
            rep.fail('C21.error', {'error': c['err']}, c)
    good = [c for c in cases if 'err' not in c]
    for k in range(0, len(good), 8000):
        part = good[k:k + 8000]
        out, odd = tlc_cases(rep, 'SolverTrace', 'CASES', part, f'{name}{k}')
        for o in out:
            c = part[o['t'] - 1]
            for cl in o['f']:
                rep.fail(cl, {'solver': c['solver'], 'seed': c['seed'], 'n': c['n']}, c)
        for i in odd:
            rep.fail('type', {'seed': part[i]['seed']}, part[i])
    rep.count(name, len(good))
    for s in ('2D', 'full', 'scg'):
        rep.extra[f'{name}_{s}'] = sum(c['solver'] == s and 'base' in c for c in good)


# ------------------------------------------------- behaviours of Steihaug.tla
def replay(m):
    n = len(m['g'])
    h = fl(m['b'])
    c = dict(x=np.zeros(n), g=fl(m['g']), h=h, lb=np.full(n, -np.inf), ub=np.full(n, np.inf),
             delta=float(m['delta']), theta_max=.9, strat='reflect', solver='scg')
    return complete(call(c), h)


def run(rep):
    if not takes(getattr(ftr, 'trust_region', None), 12):
        rep.extra['skipped'] = 'trust_region has another interface'
        return
    r = tlc('Steihaug', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Progress\n'
            + ''.join(f'INVARIANT {i}\n' for i in INVARIANTS),
            env={'QUICK': '0' if THOROUGH else '1'}, timeout=3000)
    need(r, 'Steihaug')
    rep.add_tlc(r)
    rep.count('steihaug_behaviours', len(r.out))
    rep.extra['steihaug_ends'] = {e: sum(m['end'] == e for m in r.out)
                                  for e in ('converged', 'boundary', 'curvature')}
    cases = pmap(replay, r.out, chunk=50)
    rep.sample(cases[0])
    judge(rep, cases, 'replayed')
    base = SEED * 10_000_000 + 2_100_000
    cases = pmap(rand, range(base, base + (60000 if THOROUGH else 5000)), chunk=20)
    rep.sample(cases[0])
    judge(rep, cases, 'random')
    if hasattr(fmin, 'trust_region'):
        runs = pmap(harvest, range(base, base + (4000 if THOROUGH else 300)), chunk=5)
        judge(rep, [c for r in runs for c in r], 'from_runs')
