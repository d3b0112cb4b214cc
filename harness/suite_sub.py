"""C09, C10: subproblem solvers against certificates and exact solutions."""
import inspect
import itertools
import json
import os

import numpy as np

import rec  # noqa: F401  (sets up the import path)
from common import Deadline, OUT, SEED, THOROUGH, mat, need, num, pmap, tlc, tlc_cases, vec
from fides import subproblem as sp



def kkt_cases(rep):
    r = tlc('KKT', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
            env={'QUICK': '0' if THOROUGH else '1'}, timeout=3000)
    need(r, 'KKT')
    rep.add_tlc(r)
    rep.count('kkt_cases', len(r.out))
    return r.out


def fl(a):
    return np.array([[float(x) for x in r] for r in a]) if isinstance(a[0], list) \
        else np.array([float(x) for x in a])


class Hang(BaseException):
    pass


def guarded(fn, *a):
    limit = Deadline(20, Hang)
    limit.__enter__()
    try:
        with np.errstate(all='ignore'):
            return fn(*a), None
    except Hang:
        return None, 'did not terminate'
    except Exception as e:
        return None, repr(e)[:200]
    finally:
        limit.__exit__()


def solve_nd(c):
    B, g, d = fl(c['B']), fl(c['g']), float(c['delta'])
    B = 0.5 * (B + B.T)
    B0, g0 = B.copy(), g.copy()
    out, err = guarded(sp.solve_nd_trust_region_subproblem, B, g, d)
    c = dict(c)
    c['B'], c['g'], c['delta'] = mat(B0), vec(g0), num(d)
    if err:
        c['err'] = err
        return c
    c['s'] = vec(np.real(out[0]))
    if not (np.array_equal(B, B0) and np.array_equal(g, g0)):
        c['err'] = 'inputs were changed'
    return c


def rand_nd(seed):
    rng = np.random.default_rng([seed, 1234])
    n = int(rng.integers(1, 7))
    q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    spread = rng.choice([0, 1, 3, 6])
    ev = 10 ** rng.uniform(-spread, spread, n) if spread else np.ones(n)
    kind = rng.choice(['pd', 'indef', 'neg', 'sing', 'rep', 'zero'], p=[.25, .35, .1, .15, .13, .02])
    if kind == 'indef':
        ev *= rng.choice([-1, 1], n)
    elif kind == 'neg':
        ev *= -1
    elif kind == 'sing':
        ev[rng.integers(n)] = 0
        if rng.random() < .5:
            ev *= rng.choice([-1, 1], n)
    elif kind == 'rep':
        ev[:] = ev[0] * rng.choice([-1, 1])
        if n > 2 and rng.random() < .5:
            ev[-1] *= -3
    elif kind == 'zero':
        ev[:] = 0
    if rng.random() < .2:
        q = np.eye(n)
    B = q @ np.diag(ev) @ q.T
    B = 0.5 * (B + B.T)
    w = rng.standard_normal(n) * 10 ** rng.uniform(-3, 3)
    u = rng.random()
    j = np.argmin(ev)
    if u < .25:
        w[ev == ev[j]] = 0
    elif u < .5:
        w[j] *= 10 ** rng.uniform(-16, -4)
    elif u < .55:
        w[:] = 0
    g = q @ w
    d = 10 ** rng.uniform(-6, 4)
    probes = []
    for _ in range(4):
        p = rng.standard_normal(n)
        probes.append(vec(p / np.linalg.norm(p) * d * rng.choice([1 - 1e-12, .5])))
    ng = np.linalg.norm(g)
    if ng > 0:
        probes.append(vec(-g / ng * d * (1 - 1e-12)))
    v = q[:, j]
    probes.append(vec(v * d * (1 - 1e-12) * (-1 if v @ g > 0 else 1)))
    return solve_nd(dict(kind='nd', B=mat(B), g=vec(g), delta=num(d), probes=probes, seed=seed))


def takes(fn, n):
    """Can the internal function still be called with n arguments?"""
    try:
        inspect.signature(fn).bind(*range(n))
        return True
    except (TypeError, ValueError):
        return False


def judge(rep, cases):
    errs = [c for c in cases if 'err' in c]
    for c in errs:
        rep.fail(rep.prop + '.error', {'error': c['err'], 'case': c}, c)
    good = [c for c in cases if 'err' not in c]
    for k in range(0, len(good), 20000):
        part = good[k:k + 20000]
        out, odd = tlc_cases(rep, 'Subproblem', 'CASES', part, f'cases{k}')
        for o in out:
            for cl in o['f']:
                rep.fail(cl, part[o['t'] - 1], part[o['t'] - 1])
        for i in odd:
            rep.fail('type', part[i], part[i])


def run_nd(rep):
    if not takes(getattr(sp, 'solve_nd_trust_region_subproblem', None), 3):
        rep.extra['skipped'] = 'solve_nd_trust_region_subproblem has another interface'
        return
    kk = kkt_cases(rep)
    cases = pmap(solve_nd, kk, chunk=200)
    N = 60000 if THOROUGH else 6000
    base = SEED * 10_000_000
    cases += pmap(rand_nd, range(base, base + N), chunk=100)
    rep.sample({k: v for k, v in cases[0].items()})
    rep.sample({k: v for k, v in cases[-1].items()})
    judge(rep, cases)


# ------------------------------------------------------------------ 1 dim
def solve_1d(c):
    B, g, d, s0 = fl(c['B']), fl(c['g']), fl(c['d']), fl(c['s0'])
    delta = float(c['delta'])
    out, err = guarded(sp.solve_1d_trust_region_subproblem, B, g, d, delta, s0)
    if err:
        return dict(c, err=err)
    out = np.asarray(out)
    if out.size != 1:
        return dict(c, err=f'result of shape {out.shape}')
    return dict(c, tau=num(out.ravel()[0]))


def grid_1d():
    """Every combination of small inputs, reference point within the region."""
    Bs = [[[2., 0], [0, 1]], [[0., 0], [0, 0]], [[-1., 0], [0, 2]], [[1., 2], [2, 1]],
          [[-2., 1], [1, -3]], [[1., 1], [1, 1]]]
    gs = [[0., 0], [1., 0], [0., -1], [-2., 1], [3., 4]]
    ds = [[1., 0], [0., 1], [.6, .8], [-.8, .6], [0., 0], [1., -1], [2., 0],
          [1e-10, 0.], [6e5, -8e5]]
    s0s = [[0., 0], [.5, 0], [0., -1], [.6, .8], [-.8, .6], [1., 0], [.3, .4]]
    deltas = [0., .5, 1., 1.25, 10.]
    out = []
    for B, g, d, s0, de in itertools.product(Bs, gs, ds, s0s, deltas):
        if np.hypot(*s0) > de:
            if de == 0:
                s0 = [0., 0.]
            else:
                s0 = [a * de / np.hypot(*s0) for a in s0]
        out.append(dict(kind='1d', B=mat(B), g=vec(g), d=vec(d), s0=vec(s0), delta=num(de)))
    return out


def rand_1d(seed):
    rng = np.random.default_rng([seed, 77])
    n = int(rng.integers(1, 6))
    a = rng.standard_normal((n, n)) * 10 ** rng.uniform(-3, 3)
    B = 0.5 * (a + a.T)
    u = rng.random()
    if u < .3:
        B = a @ a.T
    elif u < .4:
        B = B * 0
    g = rng.standard_normal(n) * 10 ** rng.uniform(-3, 3)
    d = rng.standard_normal(n)
    d /= np.linalg.norm(d)
    delta = 10 ** rng.uniform(-5, 4)
    s0 = np.zeros(n)
    u = rng.random()
    if u < .7:
        s0 = rng.standard_normal(n)
        s0 *= delta / np.linalg.norm(s0)
        if u < .35:
            s0 *= rng.random()
        elif u < .45:
            s0 *= 1 - 10 ** rng.uniform(-16, -3)
    if n > 1 and rng.random() < .15:   # tangential
        d -= s0 * (s0 @ d) / max(s0 @ s0, 1e-300)
        d /= np.linalg.norm(d)
    if rng.random() < .1:   # no slope
        g = g - d * ((B @ s0 + g) @ d)
    if rng.random() < .25:   # the direction may have any length
        d = d * 10 ** rng.uniform(-12, 6)
    return solve_1d(dict(kind='1d', B=mat(B), g=vec(g), d=vec(d), s0=vec(s0), delta=num(delta), seed=seed))


def run_1d(rep):
    if not takes(getattr(sp, 'solve_1d_trust_region_subproblem', None), 5):
        rep.extra['skipped'] = 'solve_1d_trust_region_subproblem has another interface'
        return
    cases = pmap(solve_1d, grid_1d(), chunk=200)
    N = 100000 if THOROUGH else 8000
    base = SEED * 10_000_000
    cases += pmap(rand_1d, range(base, base + N), chunk=200)
    rep.count('grid_cases', len(cases) - N)
    rep.sample(cases[1000])
    rep.sample(cases[-1])
    judge(rep, cases)
