"""Scenarios: objectives, bounds, options, schemes; and their execution.

Every scenario is a plain dict that fully determines a run (it is written into
replay files and into the evidence samples).
"""
import logging
import os
import pathlib
import shutil
import tempfile
import warnings

import h5py
import numpy as np

from common import num
from rec import Recorder, fides, record, snap  # noqa: F401

warnings.simplefilter('ignore')
logging.getLogger('fides').setLevel(100)

from fides.constants import Options, StepBackStrategy, SubSpaceDim  # noqa: E402

SOLVERS = ['2D', 'full', 'scg']
STRATS = ['reflect', 'reflect_single', 'truncate', 'mixed', 'refine']
ITER = ['BFGS', 'DFP', 'Broyden', 'SR1', 'BG', 'BB']
HYB = ['HybridFixed', 'HybridFraction']
RES = ['FX', 'SSM', 'TSSM', 'GNSBFGS']
EPS = np.spacing(1)


# ------------------------------------------------------------- objectives
def smooth(kind, rng, n):
    """A smooth objective x -> (f, g, H)."""
    if kind in ('quad', 'indef', 'flat'):
        q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        ev = 10 ** rng.uniform(-1, 2, n)
        if kind == 'indef':
            ev *= rng.choice([-1, 1], n)
        if kind == 'flat':
            ev[rng.integers(n)] = 0
        H = q @ np.diag(ev) @ q.T
        H = 0.5 * (H + H.T)
        b = rng.standard_normal(n) * 10 ** rng.uniform(-1, 1.5)
        c = rng.standard_normal() * 10

        def fun(x):
            return float(0.5 * x @ H @ x + b @ x + c), H @ x + b, H.copy()
        return fun
    if kind == 'rosen':
        def fun(x):
            if n == 1:
                d = x[0] - 1
                return float(d**4), np.array([4 * d**3]), np.array([[12 * d**2]])
            f = np.sum(100 * (x[1:] - x[:-1]**2)**2 + (1 - x[:-1])**2)
            g = np.zeros(n)
            H = np.zeros((n, n))
            for i in range(n - 1):
                d = x[i + 1] - x[i]**2
                g[i] += -400 * x[i] * d - 2 * (1 - x[i])
                g[i + 1] += 200 * d
                H[i, i] += -400 * d + 800 * x[i]**2 + 2
                H[i, i + 1] -= 400 * x[i]
                H[i + 1, i] -= 400 * x[i]
                H[i + 1, i + 1] += 200
            return float(f), g, H
        return fun
    if kind == 'styb':
        def fun(x):
            return (float(np.sum(x**4 - 16 * x**2 + 5 * x) / 2),
                    (4 * x**3 - 32 * x + 5) / 2, np.diag(12 * x**2 - 32) / 2)
        return fun
    if kind == 'exp':
        a = rng.standard_normal((n + 2, n))
        b = rng.standard_normal(n + 2) * .5

        def fun(x):
            with np.errstate(all='ignore'):
                e = np.exp(a @ x + b)
                return (float(e.sum() + .05 * x @ x), a.T @ e + .1 * x,
                        (a.T * e) @ a + .1 * np.eye(n))
        return fun
    if kind == 'trig':
        a = rng.standard_normal((n, n))

        def fun(x):
            y = a @ x
            return (float(np.sum(np.sin(y)) + .1 * x @ x),
                    a.T @ np.cos(y) + .2 * x,
                    -(a.T * np.sin(y)) @ a + .2 * np.eye(n))
        return fun
    if kind == 'logb':   # not defined everywhere
        c = rng.standard_normal(n)

        def fun(x):
            with np.errstate(all='ignore'):
                w = 1 + x - np.minimum(c, 0)
                f = float(np.sum(-np.log(w)) + np.sum((x - c)**2))
                return f, -1 / w + 2 * (x - c), np.diag(1 / w**2 + 2)
        return fun
    raise ValueError(kind)


def residuals(kind, rng, n):
    """A residual function x -> (res, sres)."""
    if kind == 'lin':
        m = n + int(rng.integers(0, 4))
        A = rng.standard_normal((m, n)) + np.eye(m, n)
        b = rng.standard_normal(m) * 3
        return lambda x: (A @ x - b, A.copy())
    if kind == 'rosen':
        def fun(x):
            if n == 1:
                return np.array([x[0] - 1, 3 * (x[0]**2 - 1)]), \
                    np.array([[1.0], [6 * x[0]]])
            r = np.zeros(2 * (n - 1))
            J = np.zeros((2 * (n - 1), n))
            for i in range(n - 1):
                r[2 * i] = 10 * (x[i + 1] - x[i]**2)
                r[2 * i + 1] = 1 - x[i]
                J[2 * i, i] = -20 * x[i]
                J[2 * i, i + 1] = 10
                J[2 * i + 1, i] = -1
            return r, J
        return fun
    if kind == 'exp':
        m = n + 3
        a = rng.standard_normal((m, n)) * .7
        y = rng.uniform(.2, 3, m)

        def fun(x):
            with np.errstate(all='ignore'):
                e = np.exp(a @ x)
                return e - y, a * e[:, None]
        return fun
    if kind == 'trig':
        m = n + 1
        a = rng.standard_normal((m, n))
        y = rng.standard_normal(m)
        return lambda x: (np.sin(a @ x) + .3 * (a @ x) - y,
                          a * (np.cos(a @ x) + .3)[:, None])
    raise ValueError(kind)


class Scripted:
    """An adversarial objective.

    It chooses its outputs from the optimizer's public state such that the
    ratio of actual to predicted decrease falls into the commanded class.
    """

    def __init__(self, seed, n, classes, lb, ub, resfun=False, nout=3,
                 gscale=1.0, kinds=('pd', 'indef', 'sing', 'zero'), ftop=None):
        self.rng = np.random.default_rng(seed)
        self.n, self.classes, self.lb, self.ub = n, list(classes), lb, ub
        self.resfun, self.nout, self.gscale, self.kinds = resfun, nout, gscale, kinds
        self.k = 0
        self.opt = None
        self.log = []
        self.ftop = ftop

    def deriv(self, cls):
        r, n = self.rng, self.n
        g = r.standard_normal(n) * 10 ** r.uniform(-1, 1) * self.gscale
        if r.random() < .15:
            g[r.integers(n)] = 0.0
        if cls == 'tiny':
            g = r.standard_normal(n) * 1e-8
        kind = self.kinds[r.integers(len(self.kinds))]
        q, _ = np.linalg.qr(r.standard_normal((n, n)))
        ev = 10 ** r.uniform(-1, 1.5, n)
        if kind == 'indef':
            ev *= r.choice([-1, 1], n)
        elif kind == 'sing':
            ev[r.integers(n)] = 0
        elif kind == 'zero':
            ev[:] = 0
        H = q @ np.diag(ev) @ q.T
        return g, 0.5 * (H + H.T)

    def model(self, x, gn):
        s = snap(self.opt)
        g, d = s['g'], x - s['x']
        b = np.where(g < 0, self.ub, self.lb)
        w = np.zeros(self.n)
        fin = np.isfinite(b)
        with np.errstate(all='ignore'):
            w[fin] = np.abs(g[fin]) / np.abs(s['x'][fin] - b[fin])
        w[~np.isfinite(w)] = 0
        q = g @ d + 0.5 * d @ s['h'] @ d + 0.5 * d @ (w * d)
        with np.errstate(all='ignore'):
            w[fin] = np.abs(gn[fin]) / np.abs(s['x'][fin] - b[fin])
        w[~np.isfinite(w)] = 0
        return s['f'], q, 0.5 * d @ (w * d)

    def __call__(self, x, **kw):
        cls = self.classes[self.k] if self.k < len(self.classes) else 'one'
        k = self.k
        self.k += 1
        r = self.rng
        g, H = self.deriv(cls)
        if k == 0:
            f = self.ftop if self.ftop is not None else \
                (1e4 if self.resfun else float(r.standard_normal() * 50))
        else:
            fc, q, aug = self.model(x, g)
            ratio = {'neg': -r.uniform(.1, 5), 'zero': 0.0,
                     'low': r.uniform(.01, .24), 'mu': .25,
                     'mid': r.uniform(.3, .7), 'eta': .75, 'high': r.uniform(.8, 2),
                     'one': 1.0, 'huge': 50.0, 'tiny': 1.0, 'flat': .9,
                     'below': .25 * (1 - 1e-7), 'above': .25 * (1 + 1e-7),
                     'eta-': .75 * (1 - 1e-7), 'eta+': .75 * (1 + 1e-7),
                     }.get(cls, 1.0)
            f = fc - aug + ratio * q
            if not np.isfinite(f):
                f = fc
        if self.resfun:
            # residual function: gradient and Hessian follow from the residuals
            m = self.n + 1
            if not f > 0:
                f = 1e-3 * r.uniform(.5, 1)
            u = r.standard_normal(m)
            res = u / np.linalg.norm(u) * np.sqrt(2 * f)
            sres = r.standard_normal((m, self.n)) * 10 ** r.uniform(-.5, .5)
            if cls == 'tiny':
                sres = sres * 1e-9
            if cls in ('nan', 'inf'):
                res = res.copy()
                res[0] = {'nan': np.nan, 'inf': np.inf}[cls]
            if cls == 'ninf':
                res[0] = -np.inf
            if cls in ('gnan', 'ginf', 'hnan'):
                sres[0, 0] = {'gnan': np.nan, 'ginf': np.inf, 'hnan': np.nan}[cls]
            return res, sres
        if cls in ('nan', 'inf', 'ninf'):
            f = {'nan': np.nan, 'inf': np.inf, 'ninf': -np.inf}[cls]
        if cls == 'nanall':
            f, g, H = np.nan, g * np.nan, H * np.nan
        if cls == 'gnan':
            g[r.integers(self.n)] = np.nan
        if cls == 'ginf':
            g[r.integers(self.n)] = np.inf
        if cls == 'hnan':
            H[r.integers(self.n), r.integers(self.n)] = np.nan
        if cls == 'hinf':
            H[0, 0] = -np.inf
        f = float(f)
        return (f, g, H) if self.nout == 3 else (f, g)


# ---------------------------------------------------------------- schemes
def make_scheme(d):
    """A Hessian update object from its description (None: exact)."""
    if d is None:
        return None
    d = dict(d)
    name = d.pop('name')
    if 'happ' in d:
        d['happ'] = make_scheme(d['happ'])
    return getattr(fides, name)(**d)


def rand_scheme(rng, which):
    if which == 'exact':
        return None
    if which == 'Broyden':
        return {'name': 'Broyden', 'phi': float(rng.choice([0., .25, .5, .75, 1.])),
                'enforce_curv_cond': bool(rng.random() < .7)}
    if which in ('BFGS', 'DFP'):
        return {'name': which, 'enforce_curv_cond': bool(rng.random() < .7)}
    if which in ('SR1', 'BG', 'BB'):
        return {'name': which}
    if which == 'HybridFixed':
        return {'name': which, 'switch_iteration': int(rng.integers(1, 6)),
                'happ': rand_scheme(rng, str(rng.choice(['BFGS', 'DFP', 'SR1', 'Broyden'])))}
    if which == 'HybridFraction':
        return {'name': which, 'switch_threshold': float(rng.choice([.05, .2, .5, .8])),
                'happ': rand_scheme(rng, str(rng.choice(['BFGS', 'DFP', 'SR1'])))}
    if which == 'FX':
        return {'name': which, 'hybrid_tol': float(rng.choice([.05, .2, .5, .9])),
                'happ': rand_scheme(rng, str(rng.choice(['BFGS', 'DFP', 'SR1'])))}
    if which in ('SSM', 'TSSM'):
        return {'name': which, 'phi': float(rng.choice([0., .5, 1.])),
                'enforce_curv_cond': bool(rng.random() < .6)}
    if which == 'GNSBFGS':
        return {'name': which, 'hybrid_tol': float(rng.choice([1e-6, .1, 1., 10.])),
                'enforce_curv_cond': bool(rng.random() < .6)}
    raise ValueError(which)


def needs_res(which):
    return which in RES


def bounds(rng, n, kind):
    lb, ub = np.full(n, -np.inf), np.full(n, np.inf)
    if kind == 'none':
        x0 = rng.standard_normal(n) * 2
        return lb, ub, x0
    if kind == 'box':
        lb = -rng.uniform(.3, 4, n)
        ub = rng.uniform(.3, 4, n)
    elif kind == 'tight':
        c = rng.standard_normal(n)
        lb = c - 10 ** rng.uniform(-3, 0, n)
        ub = c + 10 ** rng.uniform(-3, 0, n)
    elif kind == 'shift':
        c = rng.standard_normal(n) * 20
        lb = c - rng.uniform(.3, 4, n)
        ub = c + rng.uniform(.3, 4, n)
    elif kind == 'pos':
        lb = np.zeros(n)
        ub = np.where(rng.random(n) < .5, np.inf, 10.0)
    else:  # mix
        lb = np.where(rng.random(n) < .6, -rng.uniform(.2, 4, n), -np.inf)
        ub = np.where(rng.random(n) < .6, rng.uniform(.2, 4, n), np.inf)
    lo = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub - 4, -2))
    hi = np.where(np.isfinite(ub), ub, np.where(np.isfinite(lb), lb + 4, 2))
    x0 = lo + (hi - lo) * rng.uniform(.02, .98, n)
    u = rng.random()
    if u < .25:      # on or next to a bound
        for i in range(n):
            if rng.random() < .6:
                b = (lb if rng.random() < .5 else ub)[i]
                if np.isfinite(b):
                    x0[i] = b
                    if rng.random() < .3:
                        x0[i] = np.clip(b + rng.choice([-1, 1]) * 1e-9, lb[i], ub[i])
    return lb, ub, x0


CLASSES = ['neg', 'zero', 'low', 'mu', 'mid', 'eta', 'high', 'one', 'huge',
           'below', 'above', 'eta-', 'eta+']
NONFIN = ['nan', 'inf', 'ninf', 'nanall']


def rand_options(rng, solver, strat, level=1):
    o = {'subspace_solver': solver, 'stepback_strategy': strat,
         'maxiter': int(rng.integers(4, 26))}
    if level and rng.random() < .6:
        mu, eta = sorted(rng.choice([.05, .1, .25, .3, .5, .6, .75, .9], 2, replace=False))
        o.update(mu=float(mu), eta=float(eta))
    if level and rng.random() < .5:
        o.update(gamma1=float(rng.choice([.1, .25, .5])), gamma2=float(rng.choice([1.5, 2., 3.])))
    if level and rng.random() < .4:
        o['theta_max'] = float(rng.choice([.5, .8, .95, .99]))
    if rng.random() < .6:
        o['delta_init'] = float(rng.choice([1e-2, .1, .5, 2., 10., 100.]))
    if level and rng.random() < .4:
        o['fatol'] = float(rng.choice([0., 1e-12, 1e-3, 1e-1]))
    if level and rng.random() < .4:
        o['frtol'] = float(rng.choice([0., 1e-12, 1e-3, 1e-1]))
    if level and rng.random() < .4:
        o['xtol'] = float(rng.choice([1e-6, 1e-3, 1e-1, .5]))
    if level and rng.random() < .4:
        o['gatol'] = float(rng.choice([0., 1e-3, 1e-1, 1.]))
    if level and rng.random() < .4:
        o['grtol'] = float(rng.choice([1e-6, 1e-3, 1e-1]))
    return o


def scenario(seed, family, scheme=None, nmax=4, solver=None, strat=None):
    """Deterministically derive one scenario from a seed."""
    rng = np.random.default_rng([seed, abs(hash_(family))])
    n = int(rng.integers(1, nmax + 1))
    if scheme is None:
        scheme = str(rng.choice(['exact'] * 6 + ITER + HYB * 2 + RES))
    solver = solver or str(rng.choice(SOLVERS))
    strat = strat or str(rng.choice(STRATS, p=[.28, .17, .25, .25, .05]))
    if solver == 'scg' and strat == 'refine':
        strat = 'mixed'
    sc = dict(seed=int(seed), family=family, n=n, scheme=scheme, solver=solver,
              strat=strat)
    return sc


def hash_(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def build(sc):
    """Everything needed to run a scenario: (fun, kwargs for record)."""
    rng = np.random.default_rng([sc['seed'], hash_(sc['family']), 99])
    n, scheme = sc['n'], sc['scheme']
    res = needs_res(scheme)
    happ = sc.get('happ') or rand_scheme(rng, scheme)
    bk = sc.get('bounds') or str(rng.choice(['none', 'box', 'box', 'mix', 'tight', 'shift', 'pos']))
    lb, ub, x0 = bounds(rng, n, bk)
    opts = rand_options(rng, sc['solver'], sc['strat'], sc.get('level', 1))
    opts.update(sc.get('opts', {}))
    nout = 3 if (scheme == 'exact' or scheme in HYB) else 2
    fam = sc['family']
    if fam == 'script':
        L = int(opts['maxiter']) + 2
        pool = CLASSES + ['nan', 'inf', 'ninf', 'nanall'] * 1 + ['one', 'high', 'mid'] * 2
        cl = [str(c) for c in rng.choice(pool, L)]
        cl[0] = 'one'
        u = rng.random()
        if u < .12:
            cl[int(rng.integers(0, L))] = str(rng.choice(['gnan', 'ginf', 'hnan', 'hinf']))
        elif u < .2:
            cl[0] = str(rng.choice(['nan', 'inf', 'ninf', 'gnan', 'ginf', 'hnan', 'nanall']))
        elif u < .35:
            cl[int(rng.integers(1, L))] = 'tiny'
        if res:
            cl = ['nan' if c == 'nanall' else c for c in cl]
        if sc.get('nonfin'):
            for i in range(1, L):
                if rng.random() < .35:
                    cl[i] = str(rng.choice(NONFIN[:3] if res else NONFIN))
        if sc.get('quietclasses'):
            cl = [str(c) for c in rng.choice(['mid', 'mid', 'keep', 'high', 'low', 'neg'], L + 60,
                                             p=[.35, .2, .15, .15, .1, .05])]
        if 'classes' in sc:
            cl = list(sc['classes'])
        fun = Scripted([sc['seed'], 5], n, cl, lb, ub, res, nout)
    elif fam == 'smooth':
        if res:
            f = residuals(str(rng.choice(['lin', 'rosen', 'exp', 'trig'])), rng, n)
            fun = f
        else:
            f = smooth(str(rng.choice(['quad', 'indef', 'flat', 'rosen', 'styb', 'exp', 'trig', 'logb'])), rng, n)
            fun = f if nout == 3 else (lambda x: f(x)[:2])
        opts['maxiter'] = int(rng.integers(10, 60))
        if sc.get('fscale'):
            # other units: everything is tiny or huge
            c, base = float(sc['fscale']), fun
            r = np.sqrt(c)
            if res:
                fun = lambda x: tuple(r * a for a in base(x))  # noqa: E731
            else:
                fun = lambda x: tuple(c * a for a in base(x))  # noqa: E731
            opts.update(fatol=0., frtol=float(rng.choice([0., 1e-12])), gatol=1e-7 * c, xtol=0., grtol=0.)
    else:
        raise ValueError(fam)
    if sc.get('tols'):
        for key, vals in (('fatol', [0., 1e-9, 1e-2, 1., 10.]), ('frtol', [0., 1e-9, 1e-2, .3]),
                          ('xtol', [0., 1e-6, 1e-2, .3, 1.]), ('gatol', [0., 1e-6, 1e-1, 1., 5.]),
                          ('grtol', [0., 1e-6, 1e-1, 1.])):
            opts[key] = float(rng.choice(vals))
    opts.update(sc.get('opts', {}))
    if sc.get('ints') == 'grad' and fam == 'smooth' and not res:
        # integer derivatives: a linear or quadratic objective
        ci = rng.integers(-4, 5, n)
        Hi = np.diag(rng.integers(0, 3, n)) if rng.random() < .3 else np.zeros((n, n), dtype=int)

        def fun(x):
            g = ci if not Hi.any() else Hi @ x + ci
            return (float(ci @ x + .5 * x @ Hi @ x), g, Hi)[:nout]
    if sc.get('ints') in ('lb', 'lblist') and np.all(np.isfinite(lb)):
        lb = np.floor(lb).astype(int)
        if sc['ints'] == 'lblist':
            lb = [int(a) for a in lb]
    if 'x0' in sc:
        kind = sc['x0']
        lo = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub - 3, -2))
        hi = np.where(np.isfinite(ub), ub, np.where(np.isfinite(lb), lb + 3, 2))
        x0 = lo + (hi - lo) * rng.uniform(.05, .95, n)
        if kind in ('bound', 'corner'):
            for i in range(n):
                if kind == 'corner' or rng.random() < .5:
                    b = (lb if rng.random() < .5 else ub)[i]
                    if np.isfinite(b):
                        x0[i] = b
        elif kind == 'int':
            lb, ub = np.floor(lb), np.ceil(ub)
            x0 = np.clip(np.round(x0), lb, ub).astype(int)
        elif kind == 'list':
            lb, ub = np.floor(lb), np.ceil(ub)
            x0 = np.clip(np.round(x0), lb, ub)
        elif kind in ('nan', 'inf', '-inf'):
            x0[rng.integers(n)] = float(kind)
        elif kind.startswith('outside'):
            i = [j for j in range(n) if np.isfinite(lb[j]) or np.isfinite(ub[j])]
            if i:
                j = i[rng.integers(len(i))]
                d = 10 ** rng.uniform(-8, 1)
                x0[j] = ub[j] + d if np.isfinite(ub[j]) else lb[j] - d
    hess0 = None
    if scheme != 'exact':
        u = rng.random()
        if u < .3:
            a = rng.standard_normal((n, n))
            hess0 = a @ a.T + np.diag(10 ** rng.uniform(-1, 1, n))
        elif u < .5 and (res or nout == 3):
            hess0 = 'hess'
        if sc.get('ints') == 'hess0':
            hess0 = np.diag(rng.integers(1, 5, n))
    dt = None
    if sc.get('time') or rng.random() < .15:
        dts = rng.choice([0, .25, .5, 1, 2, 8], 80)
        mt = float(rng.choice([1.5, 4, 10, 30]))
        opts['maxtime'] = mt
        dt = lambda k: float(dts[k % 80])  # noqa: E731
    if sc.get('keys', rng.random() < .3):
        opts = {Options(k): v for k, v in opts.items()}
    return fun, dict(lb=lb, ub=ub, x0=x0, options=opts, hessian_update=make_scheme(happ),
                     resfun=res, hess0=hess0, dt=dt)


def run_scenario(sc):
    fun, kw = build(sc)
    x0 = kw.pop('x0')
    holder = {}
    if isinstance(fun, Scripted):
        class F:
            def __call__(self, x, **k):
                fun.opt = holder['r'].opt
                return fun(x, **k)
        f = F()
    else:
        f = fun
    import rec
    orig = rec.Recorder.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        holder['r'] = self
    rec.Recorder.__init__ = init
    tmp = None
    if sc.get('hist'):
        tmp = tempfile.mkdtemp(prefix='fides_h_')
        path = os.path.join(tmp, 'h.h5')
        key = list(kw['options'])[0] if kw['options'] else ''
        kw['options'][Options.HISTORY_FILE if isinstance(key, Options) else 'history_file'] = \
            pathlib.Path(path) if sc['seed'] % 2 else path
        kw['start_id'] = f'start {sc["seed"]}'
    if sc.get('log'):
        rng = np.random.default_rng([sc['seed'], 17])
        kw['verbose'] = int(sc['log'])
        kw['log'] = {}
        if rng.random() < .3:
            kw['log']['nest'] = (int(rng.integers(0, 4)), int(rng.choice([10, 20, 30, 40])))
        if rng.random() < .3 and not sc.get('time'):
            def restart():
                if isinstance(fun, Scripted):
                    fun.k = 0
            kw['log'].update(warm=True, restart=restart)
    try:
        tr, r = record(None, x0, fun=f, meta=sc, **kw)
        if tmp:
            history(tr, path, kw['start_id'])
    finally:
        rec.Recorder.__init__ = orig
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return tr


def read_group(g):
    d = {}
    for k in g:
        v = g[k][()]
        d[k] = [a.decode() if isinstance(a, bytes) else str(a) if isinstance(a, str) else num(a)
                for a in np.atleast_1d(v)]
    return d


def history(tr, path, start_id):
    """Adds what the history file holds to the trace."""
    groups = {}
    if os.path.exists(path):
        with h5py.File(path, 'r') as f:
            for k in f:
                groups[k] = read_group(f[k])
    tr['groups'] = sorted(groups)
    tr['start_id'] = start_id
    if start_id in groups:
        tr['hist'] = groups[start_id]
