"""C19: mirrored problems have mirrored runs; C22: so have renamed and shifted ones."""

import numpy as np

import rec
import scen
from common import Deadline, SEED, THOROUGH, pmap, tlc_cases, vec
from rec import fides

HORIZON = 10 if THOROUGH else 7


class Stop(BaseException):
    pass


class Hang(BaseException):
    pass


def points(fun, lb, ub, x0, opts, scheme, res):
    xs, gs = [], []

    def f(x):
        r = fun(np.array(x))
        xs.append(vec(x))
        g = r[1].T @ r[0] if res else r[1]
        gs.append(vec(g))
        if len(xs) >= HORIZON:
            raise Stop()
        return r
    o = fides.Optimizer(f, ub, lb, verbose=rec.SILENT, options=opts, hessian_update=scen.make_scheme(scheme),
                        resfun=res)
    with np.errstate(all='ignore'):
        try:
            o.minimize(x0)
        except Stop:
            pass
    return xs, gs


def pair(job):
    kind_, seed = job
    rng = np.random.default_rng([seed, 50])
    n = int(rng.integers(1, 6))
    kind = str(rng.choice(['quad', 'indef', 'rosen', 'styb', 'exp', 'trig']))
    which = str(rng.choice(['exact', 'BFGS', 'DFP', 'SR1', 'Broyden', 'FX', 'SSM', 'TSSM', 'GNSBFGS', 'HybridFixed']))
    if kind_ == 'f':                # a factor: not for the identity as initial matrix
        which = 'exact'
    res = scen.needs_res(which)
    scheme = None if which == 'exact' else scen.rand_scheme(rng, which)
    base = scen.smooth(kind, rng, n)
    if res:
        m = n + 2
        A, b = rng.standard_normal((m, n)), rng.standard_normal(m)
        base = lambda x: (np.tanh(A @ x) + .3 * A @ x - b, (1.3 - np.tanh(A @ x)[:, None] ** 2) * A)  # noqa: E731
    nout = 2 if res or which not in ('exact', 'HybridFixed') else 3
    w = rng.uniform(.3, 3, n)
    lb, ub = -w * rng.random(n), w * rng.random(n) + .01
    x0 = lb + (ub - lb) * rng.uniform(.05, .95, n)
    lb = np.where(rng.random(n) < .25, -np.inf, lb)
    ub = np.where(rng.random(n) < .25, np.inf, ub)
    s = str(rng.choice(['2D', 'full', 'scg']))
    # the interior point refinement amplifies rounding errors
    t = str(rng.choice(['reflect', 'reflect_single', 'truncate', 'mixed'], p=[.3, .2, .25, .25]))
    D, perm, c, add = np.ones(n), np.arange(n), np.zeros(n), 0.
    if kind_ == 'mirror':
        D = rng.choice([-1., 1.], n)
        if (D == 1).all():
            D = -D
    else:
        if n > 1 and 'p' in kind_:
            while (perm == np.arange(n)).all():
                perm = rng.permutation(n)
        if 's' in kind_:
            c = rng.choice([0., 1., -3., .37, 20.], n)
        if 'a' in kind_ and not res:      # residual schemes use the size of the residuals
            add = float(rng.choice([1., -10., 100.]))
    fac = 1.
    if kind_ == 'f':                # and not for the tolerance of scg
        s = '2D' if s == 'scg' else s
        fac = float(rng.choice([4., 30., 1000.]))
    inv = np.argsort(perm)

    def to(x):          # coordinates of the second problem
        return (D * (x - c))[inv]

    def mirrored(y):
        r = base(D * y[perm] + c)
        if res:
            return r[0], (r[1] * D)[:, inv]
        return (fac * r[0] + add, (fac * D * r[1])[inv], (fac * D[:, None] * r[2] * D)[np.ix_(inv, inv)])[:nout]
    lo, hi = to(lb), to(ub)
    tol = {} if kind_ == 'mirror' else {'frtol': 0., 'fatol': 1e-5, 'gatol': 0.}
    o = {'subspace_solver': s, 'stepback_strategy': t, 'delta_init': float(rng.choice([.3, 1., 5.]))} | tol
    item = dict(seed=int(seed), kind=kind, scheme=which, solver=s, strategy=t, d=vec(D), p=[int(v) + 1 for v in perm], c=vec(c), add=add, fac='1' if fac == 1 else repr(fac), map=kind_, x0=vec(x0), lb=vec(lb),
                ub=vec(ub), horizon=HORIZON, err='', a=[], b=[], g=[])

    limit = Deadline(20, Hang)
    limit.__enter__()
    try:
        item['a'], item['g'] = points(lambda x: base(x)[:nout], lb, ub, x0.copy(), o, scheme, res)
        item['b'], _ = points(mirrored, np.minimum(lo, hi), np.maximum(lo, hi), to(x0), dict(o, fatol=fac * o['fatol']) if 'fatol' in o else o,
                              scheme, res)
    except Hang:
        item['err'] = 'did not terminate'
    except Exception as e:
        item['err'] = repr(e)[:200]
    finally:
        limit.__exit__()
    return item


def run(rep):
    N = 40000 if THOROUGH else 4000
    base = SEED * 10_000_000
    if rep.prop == 'C19':
        kinds = ['mirror']
    else:
        kinds, base = ['p', 's', 'a', 'psa', 'f'], base + 5_000_000
    items = pmap(pair, [(kinds[i % len(kinds)], base + i) for i in range(N)], chunk=25)
    rep.count('pairs_of_runs', N)
    rep.sample(items[0])
    off = {}
    for k in range(0, N, 10000):
        part = items[k:k + 10000]
        out, odd = tlc_cases(rep, 'MirrorTrace', 'MIRROR', part, f'mirror{k}')
        for o in out:
            p = part[o['t'] - 1]
            if rep.prop == 'C19':
                rep.fail('C19.mirror', {'point': o['k'], 'case': p}, p)
            elif p['err']:
                rep.fail(f'{rep.prop}.error', {'case': p}, p)
            else:
                off.setdefault(p['map'], {})[p['seed']] = p
        for i in odd:
            rep.fail('type', part[i], part[i])
    # Several variables that reach their bounds at the same fraction up to
    # rounding are systematic near a vertex; then rounding decides which of
    # them are reflected.  One pair in a hundred may differ.
    rep.extra['pairs_that_differ'] = {m: len(off.get(m, {})) for m in kinds}
    for m, ps in off.items():
        if 100 * len(ps) > max(300, N // len(kinds)):
            for p in list(ps.values())[:5]:
                rep.fail(rep.prop + '.same', {'pairs': len(ps), 'case': p}, p)
