"""C11, C12: step computation, all candidates judged by StepTrace.tla."""
import json
import logging
import os

import numpy as np

import rec  # noqa: F401  (sets up the import path)
from common import CASES_CFG, SEED, THOROUGH, mat, need, num, pmap, tlc, tlc_cases, vec, workdir
from suite_sub import fl, guarded, takes

import fides.steps as fsteps
import fides.trust_region as ftr
from fides.constants import StepBackStrategy, SubSpaceDim
from scipy.sparse import csc_matrix

import warnings  # noqa: E402
warnings.simplefilter("ignore")

LOG = logging.getLogger('verif.steps')
LOG.setLevel(100)
SOLVER = {'2D': SubSpaceDim.TWO, 'full': SubSpaceDim.FULL, 'scg': SubSpaceDim.STEIHAUG}
STRAT = {s.value: s for s in StepBackStrategy}
NAMES = list(STRAT)


class Collector:
    """Records the step candidates that are created inside the block."""

    def __enter__(self):
        self.steps = []
        base = getattr(fsteps, 'Step', None)
        self.base, self.orig = base, None
        if base is not None:
            self.orig = base.__dict__.get('__init__')
            orig, steps = self.orig, self.steps

            def init(this, *a, **kw):
                orig(this, *a, **kw)
                steps.append(this)
            base.__init__ = init
        return self

    def __exit__(self, *a):
        if self.orig is not None:
            self.base.__init__ = self.orig


def f1(v):
    return vec(np.asarray(np.real(v), dtype=float).ravel())


def describe(st):
    d = {'type': str(st.type), 'qpval': num(st.qpval)}
    for a in ('s', 'ss', 's0', 'ss0'):
        d[a] = f1(getattr(st, a))
    d['alpha'] = num(getattr(st, 'alpha'))
    for a, b in (('nr', 'reflection_count'), ('nt', 'truncation_count')):
        if isinstance(getattr(st, b, None), (int, np.integer)):
            d[a] = int(getattr(st, b))
    og, ogs = getattr(st, 'og_s', None), getattr(st, 'og_ss', None)
    sub = getattr(st, 'subspace', None)
    if og is not None and ogs is not None and getattr(sub, 'ndim', 0) == 2:
        d['og_s'], d['og_ss'] = f1(og), f1(ogs)
        d['sub'] = mat(np.real(sub))
        d['dim'] = int(sub.shape[1])
    else:
        d['dim'] = -1
    return d


def coleman_li(x, g, lb, ub):
    b = np.where(g < 0, ub, lb)
    fin = np.isfinite(b)
    v = np.where(g < 0, -1.0, 1.0)
    v[fin] = x[fin] - b[fin]
    return v, fin.astype(float)


def call(c):
    """c: numpy inputs -> case for the specification."""
    x, g, h, lb, ub = (c[k].copy() for k in ('x', 'g', 'h', 'lb', 'ub'))
    v, dv = coleman_li(x, g, lb, ub)
    scal = np.sqrt(np.abs(v))
    theta = max(c['theta_max'], 1 - np.max(np.abs(v * g)))
    case = dict(n=len(x), x=vec(x), g=vec(g), h=mat(h), lb=vec(lb), ub=vec(ub),
                scal=vec(scal), dv=vec(dv), theta=num(theta), delta=num(c['delta']),
                strategy=c['strat'], solver=c['solver'], seed=c.get('seed', -1))
    saved = [a.copy() for a in (x, g, h, lb, ub, dv)]
    with Collector() as col:
        st, err = guarded(ftr.trust_region, x, g, h, csc_matrix(np.diag(scal)),
                          c['delta'], dv, theta, lb, ub, SOLVER[c['solver']],
                          STRAT[c['strat']], LOG)
    if err:
        case['err'] = err
        return case
    if not all(np.array_equal(a, b) for a, b in zip(saved, (x, g, h, lb, ub, dv))):
        case['err'] = 'inputs were changed'
        return case
    try:
        case['ret'] = {k: f1(getattr(st, k)) for k in ('s', 'ss', 's0', 'ss0')}
        case['ret']['qpval'] = num(st.qpval)
    except Exception as e:
        case['err'] = repr(e)
        return case
    cands = []
    try:
        order = {'2d': 0, 'nd': 0, 'cgs': 0, 'g': 1, 'trr': 2, 'trt': 3, 'ref': 4}
        cands = [describe(s) for s in col.steps]
        cands.sort(key=lambda d: order[d['type']])
        if not cands or order[cands[0]['type']] != 0:
            cands = []
    except Exception:
        cands = []      # internals not available: judged by the outcome only
    case['cands'] = cands
    case['cut'] = bool(cands and cands[0]['alpha'] not in ('1.0', '1') and len(x) > 1)
    return case


def sym_h(rng, n, kind):
    q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    ev = 10 ** rng.uniform(-1, 1.5, n)
    if kind == 'indef':
        ev *= rng.choice([-1, 1], n)
    elif kind == 'neg':
        ev *= -1
    elif kind == 'sing':
        ev[rng.integers(n)] = 0
    elif kind == 'zero':
        ev[:] = 0
    elif kind == 'wide':
        ev = 10 ** rng.uniform(-5, 5, n)
    h = q @ np.diag(ev) @ q.T
    if kind == 'diag':
        h = np.diag(ev)
    return 0.5 * (h + h.T)


def rand_inputs(seed):
    rng = np.random.default_rng([seed, 4711])
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 8], p=[.05, .3, .25, .2, .1, .06, .04]))
    lb, ub = np.full(n, -np.inf), np.full(n, np.inf)
    w = 10 ** rng.uniform(-2, 1, n)
    c = rng.standard_normal(n) * rng.choice([0, 1, 30])
    u = rng.random()
    fr = rng.uniform(.02, .98, n)
    near = rng.random(n) < .3
    fr[near] = 10 ** rng.uniform(-8, -2, near.sum())
    flip = rng.random(n) < .5
    fr[flip] = 1 - fr[flip]
    lo, hi = c - w * fr, c + w * (1 - fr)
    has_l, has_u = rng.random(n) < (.95 if u < .7 else .5), rng.random(n) < (.95 if u < .7 else .5)
    lb[has_l], ub[has_u] = lo[has_l], hi[has_u]
    x = np.clip(c, lb, ub)
    for j in range(n):        # strictly interior
        if not lb[j] < x[j] < ub[j]:
            lb[j], ub[j] = x[j] - 1, x[j] + 1
    h = sym_h(rng, n, rng.choice(['pd', 'indef', 'neg', 'sing', 'zero', 'wide', 'diag'],
                                 p=[.35, .25, .08, .1, .04, .08, .1]))
    g = rng.standard_normal(n) * 10 ** rng.uniform(-2, 2)
    if rng.random() < .15:
        g[rng.integers(n)] = 0
    if rng.random() < .02:
        g[:] = 0
    strat = str(rng.choice(NAMES, p=[{'refine': .02, 'reflect': .3, 'reflect_single': .13,
                                      'truncate': .3, 'mixed': .25}[s] for s in NAMES]))
    solver = str(rng.choice(['2D', 'full', 'scg'], p=[.35, .4, .25]))
    if strat == 'refine' and solver == 'scg':
        solver = 'full'
    return dict(x=x, g=g, h=h, lb=lb, ub=ub, delta=float(10 ** rng.uniform(-2, 2)),
                theta_max=float(rng.choice([.5, .8, .95, .99])), strat=strat, solver=solver,
                seed=int(seed))


def ties(seed):
    """Several variables hit their bounds at exactly the same fraction."""
    rng = np.random.default_rng([seed, 815])
    n = int(rng.integers(2, 6))
    k = int(rng.integers(2, n + 1))
    x = np.zeros(n)
    d = 2.0 ** rng.integers(-3, 3)
    lb, ub = -np.full(n, d * 4), np.full(n, d * 4)
    g = np.full(n, 0.25)
    s = rng.choice([-1., 1.], n)
    big = 2.0 ** rng.integers(0, 6)
    g[:k] = big
    lb[:k], ub[:k] = -d, d
    g = g * s
    h = np.diag(np.where(np.arange(n) < k, 2.0 ** rng.integers(-3, 3), 1.0))
    p = rng.permutation(n)
    strat = str(rng.choice(['reflect', 'reflect_single', 'truncate', 'mixed']))
    solver = str(rng.choice(['full', 'scg', '2D']))
    return dict(x=x[p], g=g[p], h=h[np.ix_(p, p)], lb=lb[p], ub=ub[p],
                delta=float(2.0 ** rng.integers(0, 10)), theta_max=float(rng.choice([.5, .75, .875])),
                strat=strat, solver=solver, seed=int(seed))


def one(a):
    kind, seed = a
    return call(rand_inputs(seed) if kind == 'rand' else ties(seed))


def judge(rep, cases):
    errs = [c for c in cases if 'err' in c]
    for c in errs:
        rep.fail('C11.error', {'error': c['err']}, c)
    good = [c for c in cases if 'err' not in c]
    for k in range(0, len(good), 4000):
        part = good[k:k + 4000]
        out, odd = tlc_cases(rep, 'StepTrace', 'CASES', part, f'steps{k}')
        rep.count('candidates_judged', sum(len(c['cands']) for c in part))
        for o in out:
            for cl in o['f']:
                if cl.startswith(rep.prop):
                    c = part[o['t'] - 1]
                    rep.fail(cl, {'cand': o['k'], 'type': c['cands'][o['k'] - 1]['type'] if o['k'] else '',
                                  'strategy': c['strategy'], 'solver': c['solver'], 'seed': c['seed'],
                                  'n': c['n']}, c)
        for i in odd:
            rep.fail('type', {'seed': part[i]['seed']}, part[i])
    kinds = {}
    for c in good:
        for cd in c['cands']:
            kinds[cd['type']] = kinds.get(cd['type'], 0) + 1
    rep.extra['candidate_types'] = kinds


def run(rep):
    if not takes(getattr(ftr, 'trust_region', None), 12):
        rep.extra['skipped'] = 'trust_region has another interface'
        return
    N = (30000 if THOROUGH else 2200) // (3 if rep.prop == 'C16' else 1)
    base = SEED * 10_000_000 + int(rep.prop[1:]) * 1_000_000
    jobs = [('rand', base + i) for i in range(N)] + [('tie', base + i) for i in range(N // 6)]
    cases = pmap(one, jobs, chunk=20)
    rep.sample({k: v for k, v in cases[0].items() if k != 'cands'})
    judge(rep, cases)


# ----------------------------------------------------------------- refinement
def refine(seed):
    """A call with strategy refine and a feasible point found by another method."""
    rng = np.random.default_rng([seed, 99])
    inp = rand_inputs(seed)
    inp.update(strat='refine', solver=str(rng.choice(['full', '2D'])))
    c = call(inp)
    if 'err' in c or [d['type'] for d in c['cands']].count('ref') != 1:
        return c
    try:
        c['w'] = vec(other(c))
    except Exception:
        c['w'] = []
    return c


def other(c):
    from scipy.optimize import minimize
    b = c['cands'][0]
    S, D, g, h = fl(b['sub']), fl(c['scal']), fl(c['g']), fl(c['h'])
    x, lb, ub, th, de = fl(c['x']), fl(c['lb']), fl(c['ub']), float(c['theta']), float(c['delta'])
    cg, cB = S.T @ (D * g), S.T @ (D[:, None] * h * D + np.diag(np.abs(g) * fl(c['dv']))) @ S
    A, r = [], []
    for i in range(len(x)):
        for e, v in ((-1, ub[i] - x[i]), (1, x[i] - lb[i])):
            if np.isfinite(v):
                A.append(e * S[i])
                r.append(th * v / D[i])
    A, r = np.array(A), np.array(r)

    def q(z):
        return cg @ z + .5 * z @ cB @ z
    cons = [{'type': 'ineq', 'fun': lambda z: de ** 2 - z @ z, 'jac': lambda z: -2 * z},
            {'type': 'ineq', 'fun': lambda z: A @ z + r, 'jac': lambda z: A}]
    start = S.T @ fl(b['og_ss']) * float(b['alpha'])
    best = start
    for z0 in (start, .5 * start, -1e-3 * cg / np.linalg.norm(cg) * de):
        z = minimize(q, z0, jac=lambda z: cg + cB @ z, constraints=cons, method='SLSQP',
                     options={'maxiter': 200, 'ftol': 1e-14}).x
        for shrink in (1, 1 - 1e-9, 1 - 1e-6):
            y = z * shrink
            if np.all(A @ y + r >= -1e-8 * r) and y @ y <= de ** 2 * (1 + 1e-8):
                if q(y) < q(best):
                    best = y
                break
    return best


def run_refine(rep):
    if not takes(getattr(ftr, 'trust_region', None), 12):
        return
    base = SEED * 10_000_000 + 700_000
    cases = pmap(refine, range(base, base + (6000 if THOROUGH else 500)), chunk=10)
    judge(rep, cases)
    cases = [c for c in cases if 'w' in c]
    rep.count('refinements', len(cases))
    if len(cases) < 30:
        return
    path = os.path.join(workdir(rep), 'refine.json')
    with open(path, 'w') as f:
        json.dump(cases, f)
    r = tlc('RefineTrace', CASES_CFG, env={'CASES': path}, timeout=3000, workers=1)
    need(r, 'RefineTrace')
    rep.add_tlc(r)
    for o in r.out:
        rep.extra['refinement'] = o
        if not o['ok']:
            rep.fail('C12.refinement', o, o)


# ------------------------------------------------- behaviours of StepBack.tla
INVARIANTS = ('Feasible', 'InRegion', 'Fraction', 'Counts', 'Freezing', 'Descent')


def replay(m):
    n = len(m['g'])
    c = call(dict(x=np.zeros(n), g=fl(m['g']), h=fl(m['h']), lb=fl(m['lb']), ub=fl(m['ub']),
                  delta=float(m['delta']), theta_max=float(m['theta']), strat=m['strategy'],
                  solver='full'))
    if 'err' in c:
        return c

    def total(d):
        return vec(np.array([float(v) for v in d['s']]) + np.array([float(v) for v in d['s0']]))
    return dict(model={'cands': m['cands'], 'picks': m['picks']}, total=total(c['ret']),
                cands=[dict(type=d['type'], total=total(d), alpha=d['alpha'], dim=d['dim'])
                       for d in c['cands']],
                problem={k: m[k] for k in ('g', 'h', 'lb', 'ub', 'delta', 'theta', 'strategy')})


def run_model(rep):
    if not takes(getattr(ftr, 'trust_region', None), 12):
        return
    r = tlc('StepBack', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            + ''.join(f'INVARIANT {i}\n' for i in INVARIANTS),
            env={'QUICK': '0' if THOROUGH else '1'}, timeout=3000)
    need(r, 'StepBack')
    rep.add_tlc(r)
    rep.count('stepback_behaviours', len(r.out))
    cases = pmap(replay, r.out, chunk=50)
    for c in cases:
        if 'err' in c:
            rep.fail('C11.error', {'error': c['err']}, c)
    good = [c for c in cases if 'err' not in c]
    rep.sample(good[0])
    for k in range(0, len(good), 20000):
        part = good[k:k + 20000]
        out, odd = tlc_cases(rep, 'StepBackTrace', 'CASES', part, f'stepback{k}')
        for o in out:
            for cl in o['f']:
                if cl.startswith(rep.prop):
                    rep.fail(cl, part[o['t'] - 1]['problem'], part[o['t'] - 1])
        for i in odd:
            rep.fail('type', part[i]['problem'], part[i])
