"""C23: runs on enumerated smooth problems that are in general not convex."""
import json
import os
import warnings

import numpy as np

import rec
import scen
from common import Deadline, SEED, THOROUGH, need, num, pmap, tlc, tlc_cases, vec, workdir
from rec import fides

SOLVERS = ('2D', 'full', 'scg')
STRATEGIES = ('reflect', 'reflect_single', 'truncate', 'mixed', 'refine')
EXACT = ('exact', 'HybridFixed', 'HybridFraction')
PLAIN = ('BFGS', 'DFP', 'SR1', 'Broyden', 'BG', 'BB')
RES = ('FX', 'SSM', 'TSSM', 'GNSBFGS')
SCHEMES = {'exact': None, 'Broyden': {'name': 'Broyden', 'phi': .5}}
CONF = [(s, t, h) for s in SOLVERS for t in STRATEGIES for h in EXACT + PLAIN + RES if (s, t) != ('scg', 'refine')]


class Hang(BaseException):
    pass


def fl(a):
    return np.array(a, dtype=float)


def problem(q):
    """The functions of the specification in double precision."""
    n, w, a = q['n'], fl(q['w']), fl(q['a'])
    if q['kind'] == 'quartic':
        A, b = fl(q['A']), fl(q['b'])

        def fgh(x):
            d = x - a
            return (.25 * w @ d ** 4 + .5 * x @ A @ x + b @ x, w * d ** 3 + A @ x + b, np.diag(3 * w * d ** 2) + A)
        return fgh, None
    ex = [(float(e['c']), fl(e['b']), float(e['q']), fl(e['u'])) for e in q['extra']]

    def rj(x):
        r = np.concatenate([w * (x - a), [c + b @ x + .5 * k * (u @ x) ** 2 for c, b, k, u in ex]])
        J = np.vstack([np.diag(w)] + [b + k * (u @ x) * u for c, b, k, u in ex])
        return r, J

    def fgh(x):
        r, J = rj(x)
        H = J.T @ J
        for m, (c, b, k, u) in enumerate(ex):
            H += r[n + m] * k * np.outer(u, u)
        return .5 * r @ r, J.T @ r, H
    return fgh, rj


def one(job):
    q, (s, t, h) = job
    fgh, rj = problem(q)
    n = [0]

    def count(x):
        n[0] += 1
        if n[0] > 1100:
            raise Hang()
        if h in RES:
            return rj(x)
        out = fgh(x)
        return out if h in EXACT else out[:2]

    run = {'solver': s, 'strategy': t, 'scheme': h, 'err': '', 'evals': 0}
    limit = Deadline(60, Hang)
    limit.__enter__()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            o = fides.Optimizer(count, fl(q['ub']), fl(q['lb']), verbose=rec.SILENT, resfun=h in RES,
                                options={'subspace_solver': s, 'stepback_strategy': t},
                                hessian_update=scen.make_scheme(SCHEMES.get(h, {'name': h})))
            r = o.minimize(fl(q['x0']))
        run.update(f=num(r[0]), x=vec(r[1]), evals=n[0], flag=int(o.exitflag))
    except Hang:
        run['err'] = f'no end after {n[0]} evaluations'
    except Exception as e:
        run['err'] = repr(e)[:200]
    finally:
        limit.__exit__()
    return run


def cases(rep, total):
    r = tlc('SmoothCases', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
            env={'QPSEED': str(SEED * 1_000_003 % 100_000_000), 'QPTOTAL': str(total)}, timeout=3000)
    need(r, 'SmoothCases')
    rep.add_tlc(r)
    r.out.sort(key=lambda q: q['k'])
    return r.out


def run(rep):
    qs = cases(rep, 2400 if THOROUGH else 260)
    jobs = []
    for i, q in enumerate(qs):
        for c in CONF[q['k'] % 2::2]:
            if q['kind'] != 'lsq' and c[2] in RES:
                continue
            # the interior point refinement takes a second for a run
            if c[1] == 'refine' and (c[0] != '2D' or q['k'] % 8 > 1):
                continue
            jobs.append((i, q, c))
    res = pmap(one, [j[1:] for j in jobs], chunk=32)
    groups = {}
    for (i, q, c), r in zip(jobs, res):
        groups.setdefault(c[2], {'scheme': c[2], 'runs': []})['runs'].append(dict(r, p=i + 1))
    groups = list(groups.values())
    rep.count('problems', len(qs))
    rep.count('runs', len(jobs))
    rep.sample(dict(qs[0]))
    for g in groups:
        n = sorted(r['evals'] for r in g['runs'])
        rep.extra.setdefault('evaluations', {})[g['scheme']] = {
            'runs': len(n), 'median': n[len(n) // 2], 'p90': n[len(n) * 9 // 10], 'p99': n[len(n) * 99 // 100], 'max': n[-1]}
    path = os.path.join(workdir(rep), 'smooth_problems.json')
    with open(path, 'w') as f:
        json.dump(qs, f)
    out, odd = tlc_cases(rep, 'SmoothTrace', 'SMOOTH', groups, 'smooth', env={'QPSEED': '0', 'QPTOTAL': '0', 'PROBLEMS': path})
    os.remove(path)
    rep.traces += len(jobs) - len(groups)
    for o in out:
        g = groups[o['t'] - 1]
        if o['m'] == 0:
            for c in o['c']:
                rep.fail(c, {'scheme': g['scheme'], 'runs': len(g['runs'])}, {'scheme': g['scheme']})
            continue
        r = g['runs'][o['m'] - 1]
        for c in o['c']:
            rep.fail(c, dict(r, stationarity=o['st']), {'problem': qs[r['p'] - 1], 'run': r})
    for i in odd:
        rep.fail('type', groups[i]['scheme'], groups[i])
