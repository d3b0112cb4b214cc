"""C18: runs on enumerated convex problems with known minimizers."""
import warnings

import numpy as np

import rec
import scen
from common import Deadline, SEED, THOROUGH, need, num, pmap, tlc, tlc_cases, vec
from rec import fides

SOLVERS = ('2D', 'full', 'scg')
STRATEGIES = ('reflect', 'reflect_single', 'truncate', 'mixed', 'refine')
PLAIN = ('exact', 'BFGS', 'DFP', 'SR1')
RES = ('FX', 'SSM', 'TSSM', 'GNSBFGS')
CONF = [(s, t, h) for s in SOLVERS for t in STRATEGIES for h in PLAIN + RES if (s, t) != ('scg', 'refine')]


class Hang(BaseException):
    pass


def fl(a):
    return np.array([[float(x) for x in r] for r in a]) if isinstance(a[0], list) else np.array([float(x) for x in a])


def objective(q, scheme):
    H, J, r, z, xs, base = fl(q['H']), fl(q['J']), fl(q['r']), fl(q['z']), fl(q['xs']), float(q['base'])
    H = .5 * (H + H.T)

    def plain(x):
        d = x - xs
        out = base + z @ d + .5 * d @ H @ d, H @ d + z
        return out + (H.copy(),) if scheme == 'exact' else out

    def res(x):
        return J @ (x - xs) + r, J.copy()
    return res if scheme in RES else plain


def one(job):
    q, (s, t, h) = job
    fun = objective(q, h)
    n = [0]

    def count(x):
        n[0] += 1
        if n[0] > 1000:
            raise Hang()
        return fun(x)

    run = {'solver': s, 'strategy': t, 'scheme': h, 'ls': h in RES, 'err': '', 'evals': 0}
    limit = Deadline(60, Hang)
    limit.__enter__()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            o = fides.Optimizer(count, fl(q['ub']), fl(q['lb']), verbose=rec.SILENT, resfun=h in RES,
                                options={'subspace_solver': s, 'stepback_strategy': t},
                                hessian_update=scen.make_scheme(None if h == 'exact' else {'name': h}))
            r = o.minimize(fl(q['x0']))
        run.update(f=num(r[0]), x=vec(r[1]), evals=n[0], flag=int(o.exitflag))
    except Hang:
        run['err'] = f'no end after {n[0]} evaluations'
    except Exception as e:
        run['err'] = repr(e)[:200]
    finally:
        limit.__exit__()
    return run


def cases(rep, total):
    r = tlc('ConvexCases', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
            env={'QPSEED': str(SEED * 1_000_003 % 100_000_000), 'QPTOTAL': str(total)}, timeout=3000)
    need(r, 'ConvexCases')
    rep.add_tlc(r)
    r.out.sort(key=lambda q: q['k'])
    return r.out


def run(rep):
    qs = cases(rep, 3000 if THOROUGH else 240)
    jobs = []
    for q in qs:
        # thorough: every configuration; quick: half of them, in turn
        use = CONF if THOROUGH else CONF[q['k'] % 2::2]
        # the interior point refinement takes a second for a run
        use = [c for c in use if c[:2] != ('full', 'refine') or (c[2] != 'GNSBFGS' and (THOROUGH or q['k'] % 12 < 2))]
        jobs += [(q, c) for c in use]
    res = pmap(one, jobs, chunk=32)
    for q in qs:
        q['runs'] = []
    for (q, _), r in zip(jobs, res):
        q['runs'].append(r)
    rep.count('problems', len(qs))
    rep.count('runs', len(jobs))
    rep.extra['evaluations_max'] = max(r['evals'] for r in res)
    rep.sample(dict(qs[0]))
    # how many evaluations the runs of a scheme take
    for q in qs:
        q['sums'] = []
    for h in PLAIN + RES:
        n = sorted(r['evals'] for r in res if r['scheme'] == h)
        rep.extra.setdefault('evaluations', {})[h] = {'runs': len(n), 'median': n[len(n) // 2], 'p90': n[len(n) * 9 // 10],
                                                      'p99': n[len(n) * 99 // 100], 'max': n[-1]}
        qs[0]['sums'].append({'scheme': h, 'evals': n})
    env = {'QPSEED': '0', 'QPTOTAL': '0'}
    for k in range(0, len(qs), 500):
        part = qs[k:k + 500]
        out, odd = tlc_cases(rep, 'ConvexTrace', 'CONVEX', part, f'convex{k}', env=env)
        for o in out:
            q = part[o['t'] - 1]
            if o['m'] == 0:
                rep.fail('C18.rate', {'scheme': o['c']['scheme']}, {'rate': o['c']})
                continue
            item = dict(q, runs=[q['runs'][o['m'] - 1]])
            for c in o['c']:
                rep.fail(c, {k: v for k, v in item['runs'][0].items()} | {'gap': o['gap'], 'problem': q['k']}, item)
        for i in odd:
            rep.fail('type', part[i], part[i])
