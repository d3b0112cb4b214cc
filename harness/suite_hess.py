"""C13, C14: Hessian approximation classes against HessMachine / HessTrace."""
import itertools
import json
import os
import warnings

import numpy as np

import rec  # noqa: F401
import scen
from common import SEED, THOROUGH, mat, need, num, pmap, tlc, tlc_cases, vec, workdir
from rec import scheme_info

warnings.simplefilter('ignore')
VEC = ('s', 'y', 'r', 'rprev', 'yb')
INVS = ['C13_Secant', 'C13_Symmetric', 'C13_Definite', 'C13_Skips', 'C13_Convex',
        'C13_LeastChange', 'C13_Positive', 'C14_Hybrid', 'C14_Structured', 'C14_Residual',
        'C14_FX', 'Finite']
MACHINE = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + \
    ''.join(f'INVARIANT {i}\n' for i in INVS) + 'PROPERTY C14_Irreversible\n'

ARGS = {'HybridFixed': ('s', 'y', 'hess', 'since'),
        'HybridFraction': ('s', 'y', 'hess', 'nonup', 'iters'),
        'FX': ('s', 'y', 'r', 'rprev', 'hess'),
        'SSM': ('s', 'y', 'r', 'hess', 'yb'), 'TSSM': ('s', 'y', 'r', 'hess', 'yb'),
        'GNSBFGS': ('s', 'y', 'r', 'hess', 'yb')}


def read(h):
    """Everything that is handed out, as fresh references."""
    d = {'_h': h.get_mat(), '_diff': h.get_diff()}
    if hasattr(h, 'get_structured_diff'):
        d['_sdiff'] = h.get_structured_diff()
        if getattr(getattr(h, 'A', None), 'ndim', 0) == 2:
            d['_A'] = h.A
    inner = getattr(h, 'hessian_update', None)
    if inner is not None and hasattr(inner, 'get_mat'):
        d['_inner'] = inner.get_mat()
    return d


def out(o, d):
    for k, v in d.items():
        o[k[1:]] = mat(np.atleast_2d(v))
    return o


def init(h, dim, given, valid=True):
    """given: None or a matrix."""
    o = {'op': 'init', 'dim': dim, 'given': 'none' if given is None else 'mat',
         'valid': 'yes' if valid else 'no', 'err': ''}
    try:
        h._init_mat(dim, None if given is None else given)
    except Exception as e:
        o['err'] = type(e).__name__
        return o
    if valid:
        if given is not None:
            o['h0'] = mat(given)
        out(o, read(h))
    return o


def update(h, name, u, want=None):
    o = {'op': 'update', 'err': '', 'u': {k: vec(v) if k in VEC else mat(v) if k == 'hess' else int(v)
                                          for k, v in u.items()}}
    keep = {k: np.array(v, copy=True) for k, v in u.items()}
    try:
        with np.errstate(all='ignore'):
            h.update(*[u[a] for a in ARGS.get(name, ('s', 'y'))])
    except Exception as e:
        o['err'] = repr(e)[:200]
        return o
    if not all(np.array_equal(keep[k], u[k], equal_nan=True) for k in u):
        o['err'] = 'inputs were changed'
    out(o, read(h))
    if want is not None:
        o['want'] = want
    return o


def alias(h, handed):
    """Overwrites everything that was handed in or out."""
    for a in handed:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 7.25
    return out({'op': 'alias'}, read(h))


def fl(a):
    return np.array([[float(x) for x in r] for r in a]) if isinstance(a[0], list) \
        else np.array([float(x) for x in a])


def finish(case):
    """Cut the case after the first failing operation."""
    ops = []
    for o in case['ops']:
        ops.append(o)
        if o.get('err') and not (o['op'] == 'init' and o['valid'] == 'no'):
            break
    case['ops'] = ops
    return case


# --------------------------------------------------- sequences from the model
def menus():
    S = [[1, 0], [0, 1], [1, 1], [1, -2]]
    Y = [[1, 0], [2, 1], [-1, 0], [0, 3], ['0.5', -1], [4, '2.5']]
    v = lambda a: [str(x) for x in a]  # noqa: E731
    it = [dict(s=v(s), y=v(y)) for s in S for y in Y]
    G = [[['2', '0'], ['0', '1']], [['1', '1'], ['1', '3']], [['0', '0'], ['0', '0']]]
    few = [([1, 1], [2, 1]), ([1, -2], [1, -1]), ([0, 1], [1, -1])]
    hyf = [dict(s=v(s), y=v(y), hess=g, since=k) for (s, y), g, k in
           itertools.product(few, G[:2], (0, 1, 2, 3))]
    hfr = [dict(s=v(s), y=v(y), hess=g, nonup=a, iters=b) for (s, y), g, (a, b) in
           itertools.product(few[:2], G[:2], ((25, 25), (20, 26), (21, 26), (26, 27), (13, 26), (0, 30)))]
    fx = [dict(s=v(s), y=v(y), hess=g, r=v(r), rprev=v(rp)) for (s, y), g, (r, rp) in
          itertools.product(few, G[:2], (([1, 0], [2, 0]), ([1, 1], [1, 2]), ([2, 0], [1, 0]), ([2, 0], [2, 0]),
                                         ([3, 0], [4, 0]), ([0, 0], [1, 1])))]
    st = [dict(s=v(s), y=v(y), hess=g, r=v(r), yb=v(yb)) for (s, y), g, r, yb in
          itertools.product(few, G, ([1, 0], [0, 0], [3, 4]), ([1, 1], [-1, 2], [0, 0], ['2E-7', '1E-7']))]
    return it, hyf, hfr, fx, st


def machine_configs():
    it, hyf, hfr, fx, st = menus()
    I2 = [['1', '0'], ['0', '1']]
    P = [['3', '1'], ['1', '2']]
    N = [['1', '2'], ['2', '-1']]
    cs = []

    def add(d, menu, h0):
        h = scen.make_scheme(d)
        cs.append(dict(scheme=scheme_info(h), menu=menu, h0=h0, make=d))
    for h0 in (I2, P, N):
        for curv in (True, False):
            add({'name': 'BFGS', 'enforce_curv_cond': curv}, it, h0)
            add({'name': 'DFP', 'enforce_curv_cond': curv}, it, h0)
            add({'name': 'Broyden', 'phi': .5, 'enforce_curv_cond': curv}, it, h0)
        add({'name': 'Broyden', 'phi': .25}, it, h0)
        for nm in ('SR1', 'BG', 'BB'):
            add({'name': nm}, it, h0)
    for h0 in (I2, P):
        for k in (1, 2, 3):
            add({'name': 'HybridFixed', 'switch_iteration': k}, hyf, h0)
        add({'name': 'HybridFixed', 'happ': {'name': 'SR1'}, 'switch_iteration': 2}, hyf, h0)
        for t in (.8, .5):
            add({'name': 'HybridFraction', 'switch_threshold': t, 'happ': {'name': 'DFP'}}, hfr, h0)
        for t in (.75, .2, .5):
            add({'name': 'FX', 'hybrid_tol': t, 'happ': {'name': 'BFGS'}}, fx, h0)
        add({'name': 'FX', 'hybrid_tol': .5, 'happ': {'name': 'SR1'}}, fx, h0)
        for curv in (True, False):
            for nm in ('SSM', 'TSSM'):
                add({'name': nm, 'phi': .0, 'enforce_curv_cond': curv}, st, h0)
                add({'name': nm, 'phi': .5, 'enforce_curv_cond': curv}, st, h0)
            add({'name': 'GNSBFGS', 'hybrid_tol': .5, 'enforce_curv_cond': curv}, st, h0)
            add({'name': 'GNSBFGS', 'enforce_curv_cond': curv}, st, h0)
    return cs


def replay(a):
    conf, b = a
    h = scen.make_scheme(conf['make'])
    h0 = fl(conf['h0'])
    ops = [init(h, 2, None if np.array_equal(h0, np.eye(2)) else h0)]
    for it in b['log']:
        u = {k: (fl(v) if isinstance(v, list) else v) for k, v in it['u'].items()}
        ops.append(update(h, conf['scheme']['name'], u, it['h'] if it['cmp'] else None))
    return finish({'scheme': conf['scheme'], 'ops': ops, 'src': 'machine'})


def relevant(prop, conf):
    it = conf['scheme']['name'] in scen.ITER
    return it if prop == 'C13' else not it


def from_machine(rep):
    confs = [c for c in machine_configs() if relevant(rep.prop, c)]
    d = workdir(rep)
    path = os.path.join(d, 'hess_configs.json')
    deep = 3 if THOROUGH else 2
    cases = []
    # deep sequences over a part of each menu, short ones over all of it
    rng = np.random.default_rng([SEED, int(rep.prop[1:])])
    parts = [(confs, 2)]
    if THOROUGH:
        parts.append(([dict(c, menu=[c['menu'][i] for i in rng.permutation(len(c['menu']))[:14]])
                       for c in confs], 3))
    else:
        # a quick run takes a third of the schemes for all pairs, and longer
        # sequences over few updates for the others
        parts = [([dict(c, menu=[c['menu'][i] for i in rng.permutation(len(c['menu']))[:11]])
                   for c in confs], 2),
                 ([dict(c, menu=[c['menu'][i] for i in rng.permutation(len(c['menu']))[:4]])
                   for c in confs], 3)]
    for cs, depth in parts:
        with open(path, 'w') as f:
            json.dump({'schemes': [{k: c[k] for k in ('scheme', 'menu', 'h0')} for c in cs],
                       'depth': depth}, f)
        r = tlc('HessMachine', MACHINE, env={'CONFIGS': path}, timeout=3000)
        need(r, 'HessMachine')
        rep.add_tlc(r)
        cases += pmap(replay, [(cs[b['c'] - 1], b) for b in r.out], chunk=200)
    rep.count('model_sequences', len(cases))
    return cases


# ------------------------------------------------------------ random sequences
def wrong_shapes(rng, n):
    return [np.eye(n + 1), np.ones((n, n + 1)), np.ones((n + 1, n)), np.ones(n),
            np.ones((1, n)) if n > 1 else np.ones((2, 1))]


def rand_case(a):
    seed, prop = a
    rng = np.random.default_rng([seed, 31])
    n = int(rng.integers(1, 6))
    name = str(rng.choice(scen.ITER if prop == 'C13' else scen.HYB + scen.RES))
    d = scen.rand_scheme(rng, name)
    if name == 'HybridFraction' and rng.random() < .5:
        d.pop('switch_threshold')
    h = scen.make_scheme(d)
    ops = []
    for rnd in range(2 if rng.random() < .4 else 1):    # again: a new run
        u = rng.random()
        given = None
        if u < .25:
            q = rng.standard_normal((n, n))
            given = q @ q.T + np.diag(10 ** rng.uniform(-2, 1, n))
        elif u < .35:
            q = rng.standard_normal((n, n))
            given = q + q.T
        elif u < .42:
            given = np.zeros((n, n))
        elif u < .52:
            given = np.diag(rng.integers(1, 5, n))     # integers
        elif u < .58:
            w = wrong_shapes(rng, n)
            ops.append(init(h, n, w[rng.integers(len(w))], valid=False))
            break
        o = init(h, n, given)
        ops.append(o)
        if o['err']:
            break
        handed = [given]
        if rng.random() < .3:
            got = read(h)
            got.pop('_A', None)
            ops.append(alias(h, handed + list(got.values())))
            handed = []
        iters = int(rng.integers(0, 30))
        nonup = int(iters * rng.uniform(.3, 1))
        since = 0
        rprev = rng.standard_normal(n + 1) * 3
        k = int(rng.integers(2, 9))
        for j in range(k):
            s = rng.standard_normal(n) * 10 ** rng.uniform(-3, 1)
            if rng.random() < .1:
                s[:] = 0
                s[rng.integers(n)] = 1
            q = rng.standard_normal((n, n))
            H = q @ q.T
            if rng.random() < .3:
                H = q + q.T
            y = H @ s
            w = rng.random()
            if w < .15:
                y = rng.standard_normal(n)
            elif w < .2:
                y = np.zeros(n)
            elif w < .27:
                y = h.get_mat() @ s           # secant equation holds already
            elif w < .32 and n > 1:
                z = rng.standard_normal(n)    # no curvature
                y = z - s * (s @ z) / (s @ s)
            J = rng.standard_normal((n + 1, n))
            if rng.random() < .1:
                J[:] = 0
            C = J.T @ J
            r = rng.standard_normal(n + 1) * 10 ** rng.uniform(-3, 1)
            w = rng.random()
            if w < .1:
                r[:] = 0
            elif w < .3:
                r = rprev * float(rng.choice([.5, .9, np.sqrt(.8), 1.]))
            yb = rng.standard_normal(n) * 10 ** rng.uniform(-7, 0)
            if rng.random() < .15:
                yb[:] = 0
            if rng.random() < .3:
                yb = .5 * s * 10 ** rng.uniform(-3, 1)
            since = int(rng.integers(0, 7)) if rng.random() < .3 else since + 1
            iters += 1
            nonup += int(rng.random() < .7)
            if j == k - 1 and rng.random() < .5:
                s = s.astype(float)
            u = dict(s=s, y=y, hess=C, r=r, rprev=rprev, yb=yb, since=since, nonup=nonup, iters=iters)
            u = {a: u[a] for a in ARGS.get(name, ('s', 'y'))}
            o = update(h, name, u)
            ops.append(o)
            if o['err'] or not all(np.all(np.isfinite(m)) for m in read(h).values()):
                break
            handed += list(u.values())
            rprev = r.copy()
            if not np.any(rprev):
                rprev = rng.standard_normal(n + 1)
            if rng.random() < .3:
                got = read(h)
                got.pop('_A', None)           # an attribute, not handed out
                ops.append(alias(h, handed + list(got.values())))
                handed = []
                rprev = rng.standard_normal(n + 1)
    return finish({'scheme': scheme_info(h), 'ops': ops, 'seed': seed})


def judge(rep, cases):
    for k in range(0, len(cases), 4000):
        part = cases[k:k + 4000]
        out, odd = tlc_cases(rep, 'HessTrace', 'CASES', part, f'hess{k}')
        rep.count('hessian_operations', sum(len(c['ops']) for c in part))
        for o in out:
            for cl in o['f']:
                if cl.startswith(rep.prop):
                    c = part[o['t'] - 1]
                    rep.fail(cl, {'scheme': c['scheme'], 'op': o['k'], 'seed': c.get('seed'),
                                  'err': c['ops'][o['k'] - 1].get('err')}, c)
        for i in odd:
            rep.fail('type', {'scheme': part[i]['scheme'], 'seed': part[i].get('seed')}, part[i])


def run(rep):
    cases = from_machine(rep)
    N = 20000 if THOROUGH else 1500
    base = SEED * 10_000_000 + int(rep.prop[1:]) * 1_000_000
    cases += pmap(rand_case, [(base + i, rep.prop) for i in range(N)], chunk=20)
    rep.sample(cases[0])
    judge(rep, cases)
