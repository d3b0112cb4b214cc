"""Exhaustive exploration of the design (Fides.tla) and replay of every
behaviour that TLC found into the real optimizer."""
import json
import os
import shutil
import tempfile
import time

import h5py
import numpy as np

import rec
from common import SEED, THOROUGH, need, pmap, tlc, workdir
from rec import fides, snap

SOLVERS = ['2D', 'full', 'scg']
STRATS = ['reflect', 'truncate', 'mixed', 'reflect_single', 'refine']
INVS = ['C01_Bounds', 'C02_Best', 'C03_Coherent', 'C04_Radius', 'C05_Flag',
        'C06_Finite', 'C07_Budget', 'C15_Fold', 'C16_Rows', 'C19_Scaling',
        'C12_Fraction', 'C11_Descent']
PROPS = ['C03_Moves', 'C04_Update', 'C06_Rejected']


def item(cls, r='0', g='1', h='1', J='1', dt='0', initial=False, later=True):
    return dict(cls=cls, r=r, g=g, h=h, J=J, dt=dt, initial=initial, later=later)


MENU = [
    item('ratio', '1', '-3', '2', '1.5', '0.25', True, False),
    item('ratio', '1', '2.5', '-1', '-2', '0.5', True, False),
    item('nan', g='1', h='1', initial=True, dt='1'),
    item('inf', g='-1', h='1', initial=True),
    item('ninf', g='-1', h='1', initial=True),
    item('gbad', initial=True),
    item('hbad', initial=True),
    item('flat', g='-0.5', h='3', J='0.5', dt='0.5'),
    item('ratio', '-1.3', '0.7', '5', '2', '2'),
    item('ratio', '0.1', '-2', '-1.5', '0.8', '0.25'),
    item('ratio', '0.5', '1.7', '2.5', '1.25', '1'),
    item('ratio', '0.9', '-1.1', '0', '-0.6', '0'),
    item('ratio', '1.6', '4', '1', '3', '0.5'),
    item('ratio', '0.97', '0.00001', '2', '0.00001', '0'),
]
# exactly on the thresholds (explored, but not replayed: not resolvable in doubles)
EDGE = [item('ratio', '0.25', '-2', '1'), item('ratio', '0.75', '2', '1'),
        item('ratio', '0', '1', '1'), item('ratio', '1', '0', '1')]


def configs(depth):
    no = (['-inf'], ['inf'])
    low, up, box = (['0'], ['inf']), (['-inf'], ['1.5']), (['-1'], ['2'])
    tight = (['0'], ['0.01'])
    ex = {'name': 'exact'}
    bf = {'name': 'BFGS', 'curv': True, 'phi': '0'}
    bfn = {'name': 'BFGS', 'curv': False, 'phi': '0'}
    out = []

    def add(b, x0, sch=ex, f0='5', hess0='none', h0=None, A0='2.220446049250313E-16', **opts):
        opts = {k: str(v) for k, v in opts.items()}
        opts.setdefault('maxiter', str(depth))
        for k in ('fatol', 'frtol', 'gatol'):
            opts.setdefault(k, {'fatol': '1E-8', 'frtol': '1E-8', 'gatol': '1E-3'}[k])
        d = dict(n=1, lb=b[0], ub=b[1], x0=[x0], scheme=sch, f0=f0, hess0=hess0,
                 opts=opts, A0=[[A0]], clock='maxtime' in opts)
        if h0:
            d['h0'] = [[h0]]
        out.append(d)
    add(no, '0.5')
    add(box, '0.5')
    add(low, '0.5', delta_init='0.3')
    add(up, '0.5', delta_init='10')
    add(box, '-1', f0='0')
    add(box, '2', f0='0')
    add(low, '0', f0='0')
    add((['-inf'], ['0']), '0', f0='0')
    add(box, '2.5')
    add(box, '-1.25')
    add(low, '-0.001')
    add(tight, '0.004')
    add(box, '0.25', mu='0.05', eta='0.95', gamma1='0.5', gamma2='3')
    add(box, '0.25', mu='0.55', eta='0.6', gamma1='0.1', gamma2='1.5', delta_init='0.1')
    add(box, '0.25', theta_max='0.5', delta_init='20')
    add(no, '3', fatol='2', delta_init='0.5')
    add(no, '3', frtol='0.4', delta_init='0.5')
    add(box, '1', xtol='0.4')
    add(no, '1', xtol='0.7', fatol='0', frtol='0')
    add(no, '1', gatol='1.2')
    add(box, '1', grtol='0.3', gatol='0')
    add(no, '1', gatol='0', fatol='0', frtol='0')
    add(no, '1', maxtime='2.6')
    add(box, '1', maxtime='1.1')
    add(no, '1', maxiter='1')
    add(no, '1', maxiter='0')
    add(no, '1', bf)
    add(box, '1', bf, hess0='given', h0='2.5')
    add(no, '1', bfn, hess0='given', h0='-0.5')
    add(no, '1', {'name': 'DFP', 'curv': True, 'phi': '1'}, delta_init='0.4')
    add(low, '1', {'name': 'Broyden', 'curv': True, 'phi': '0.25'})
    add(no, '1', {'name': 'SR1'})
    add(box, '1', {'name': 'SR1'}, hess0='given', h0='-2')
    add(no, '1', {'name': 'BG'})
    add(no, '1', {'name': 'HybridFixed', 'switch_iteration': 1, 'inner': bf})
    add(box, '1', {'name': 'HybridFixed', 'switch_iteration': 2, 'inner': {'name': 'SR1'}})
    add(no, '1', {'name': 'HybridFixed', 'switch_iteration': 1, 'inner': bf}, hess0='hess')
    add(no, '1', {'name': 'FX', 'hybrid_tol': '0.2', 'inner': bf}, f0='50')
    add(no, '1', {'name': 'SSM', 'phi': '0', 'curv': True}, f0='50')
    add(no, '1', {'name': 'TSSM', 'phi': '1', 'curv': False}, f0='50')
    add(no, '1', {'name': 'GNSBFGS', 'hybrid_tol': '0.05', 'curv': True}, f0='50')
    return out


def scheme_of(d):
    n = d['name']
    kw = {}
    if 'curv' in d and n in ('BFGS', 'DFP', 'Broyden', 'SSM', 'TSSM', 'GNSBFGS'):
        kw['enforce_curv_cond'] = d['curv']
    if n in ('Broyden', 'SSM', 'TSSM'):
        kw['phi'] = float(d['phi'])
    if 'switch_iteration' in d:
        kw['switch_iteration'] = d['switch_iteration']
    if 'hybrid_tol' in d:
        kw['hybrid_tol'] = float(d['hybrid_tol'])
    if 'inner' in d:
        kw['happ'] = scheme_of(d['inner'])
    return None if n == 'exact' else getattr(fides, n)(**kw)


class Stop(BaseException):
    pass


GROUP = {  # observed quantity -> properties it concerns
    'x': ['C03', 'C01'], 'f': ['C03'], 'g': ['C03'], 'h': ['C15', 'C13', 'C14', 'C03'],
    'delta': ['C04'], 'fmin': ['C02'], 'xmin': ['C02'], 'gmin': ['C02'],
    'ratio': ['C04', 'C03'], 'inner': ['C15', 'C14', 'C13'], 'A': ['C15', 'C14'],
    'trial': ['C11', 'C12', 'C10', 'C19', 'C04'], 'count': ['C07', 'C05'],
    'flag': ['C05', 'C07'], 'kind': ['C06', 'C01', 'C05'], 'ret': ['C03'],
    'conv': ['C05'], 'hist': ['C16'], 'trial0': ['C01'],
}


def close(a, b, rel=2e-7, ab=1e-12):
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def replay(job):
    """Runs one behaviour in the real code; returns [(quantity, detail)]."""
    b, cfg, idx, hist = job
    solver = SOLVERS[idx % 3]
    strat = STRATS[(idx // 3) % 5]
    if solver == 'scg' and strat == 'refine':
        strat = 'mixed'
    opts = {k: (float(v) if k != 'maxiter' else int(v)) for k, v in cfg['opts'].items()}
    opts.update(subspace_solver=solver, stepback_strategy=strat)
    name = cfg['scheme']['name']
    res = name in ('FX', 'SSM', 'TSSM', 'GNSBFGS')
    nout = 3 if name == 'exact' or name.startswith('Hybrid') else 2
    bad = []
    log = b['log']
    st = {'k': 0}
    clock = rec.Clock() if cfg['clock'] else None
    F = float

    def state(pre, i):
        s = snap(opt)
        if i >= 1:
            pairs = [('x', s['x'][0], F(pre['x'][0])), ('f', s['f'], F(pre['f'])),
                     ('g', s['g'][0], F(pre['g'][0])), ('h', s['h'][0, 0], F(pre['h'][0][0])),
                     ('delta', s['delta'], F(pre['delta'])),
                     ('fmin', s['fmin'], F(pre['fmin'])),
                     ('xmin', s['xmin'][0], F(pre['xmin'][0])),
                     ('gmin', s['gmin'][0], F(pre['gmin'][0]))]
            if pre['ratio'] != 'none' and s['ratio'] is not None:
                pairs.append(('ratio', s['ratio'], F(pre['ratio'])))
            if name.startswith('Hybrid') and 'inner' in s:
                pairs.append(('inner', s['inner'][0, 0], F(pre['inner'][0][0])))
            if name in ('SSM', 'TSSM', 'GNSBFGS') and 'A' in s:
                pairs.append(('A', s['A'][0, 0], F(pre['A'][0][0])))
            for q, a, w in pairs:
                if not close(a, w, ab=1e-9 if q == 'ratio' else 1e-12):
                    bad.append((q, f'evaluation {i}: observed {a!r}, specified {w!r}'))

    def fun(x):
        k = st['k']
        st['k'] += 1
        if k >= len(log):
            if b['pc'] == 'blurred':
                state(b['post'], k)
                raise Stop()
            bad.append(('count', f'evaluation {k} but the run should have ended with {b["flag"]}'))
            raise Stop()
        e = log[k]
        state(e['pre'], k)
        if bad:
            raise Stop()
        w = F(e['x'][0])
        if not close(x[0], w, ab=1e-15 if abs(w) < 1e-3 else 1e-12):
            bad.append(('trial' if k else 'trial0', f'evaluation {k} at {x[0]!r}, specified {w!r}'))
            raise Stop()
        out = e['out']
        if clock:
            clock.t += F(out['dt'])
        if res:
            return np.array([F(out['res'][0])]), np.array([[F(out['J'][0][0])]])
        r = (F(out['f']), np.array([F(out['g'][0])]), np.array([[F(out['h'][0][0])]]))
        return r[:nout]

    tmp = None
    try:
        if hist:
            tmp = tempfile.mkdtemp(prefix='fides_h_')
            opts['history_file'] = os.path.join(tmp, 'h.h5')
        opt = fides.Optimizer(fun, np.array([F(cfg['ub'][0])]), np.array([F(cfg['lb'][0])]),
                              verbose=rec.SILENT, options=opts,
                              hessian_update=scheme_of(cfg['scheme']), resfun=res)
        h0 = None
        if cfg['hess0'] == 'given':
            h0 = np.array([[F(cfg['h0'][0][0])]])
        elif cfg['hess0'] == 'hess':
            h0 = 'hess'
        if clock:
            clock.__enter__()
        kind, ret = 'return', None
        try:
            with np.errstate(all='ignore'):
                ret = opt.minimize(np.array([F(cfg['x0'][0])]), hess0=h0, start_id='run')
        except Stop:
            return bad
        except Exception as ex:
            kind = 'raise'
            msg = repr(ex)[:200]
        finally:
            if clock:
                clock.__exit__()
        s = snap(opt)
        if kind != b['kind']:
            what = 'count' if kind == 'return' and st['k'] < len(log) else 'kind'
            bad.append((what, f'ended by {kind} ({msg if kind == "raise" else s["flag"]}) after {st["k"]} '
                        f'evaluations, specified {b["kind"]} ({b["flag"]}) after {len(log)}'))
            return bad
        if st['k'] != len(log):
            bad.append(('count', f'{st["k"]} evaluations, specified {len(log)} ({b["flag"]}), flag {s["flag"]}'))
            return bad
        if fides.constants.ExitFlag[b['flag']].value != s['flag']:
            bad.append(('flag', f'flag {s["flag"]}, specified {b["flag"]}'))
        if kind == 'return':
            if s['conv'] != (b['flag'] in ('FTOL', 'XTOL', 'GTOL')):
                bad.append(('conv', f'converged={s["conv"]} with flag {b["flag"]}'))
            state(b['post'], len(log))
            for q, a, w in (('f', ret[0], b['post']['f']), ('x', ret[1][0], b['post']['x'][0]),
                            ('g', ret[2][0], b['post']['g'][0]), ('h', ret[3][0, 0], b['post']['h'][0][0])):
                if not close(float(a), F(w)):
                    bad.append(('ret', f'returned {q}={a!r}, specified {w}'))
            if s['iter'] != b['k']:
                bad.append(('count', f'iteration={s["iter"]}, specified {b["k"]}'))
        if hist:
            bad += check_hist(opts['history_file'], b, kind)
        return bad
    finally:
        if tmp:
            shutil.rmtree(tmp)


def check_hist(path, b, kind):
    bad = []
    if kind == 'raise':
        if os.path.exists(path):
            with h5py.File(path, 'r') as f:
                if len(f):
                    bad.append(('hist', 'a run that raised left a record'))
        return bad
    if not os.path.exists(path):
        return [('hist', 'no history file')]
    with h5py.File(path, 'r') as f:
        if list(f) != ['run']:
            return [('hist', f'groups {list(f)}')]
        g = f['run']
        if b['hist']:
            for key in b['hist'][0]:
                if key not in g:
                    bad.append(('hist', f'{key} is missing'))
                    continue
                col = list(g[key][()])
                if len(col) != len(b['hist']):
                    bad.append(('hist', f'{key} has {len(col)} entries for {len(b["hist"])} iterations'))
                    continue
                for i, row in enumerate(b['hist']):
                    if row[key] != 'skip' and not close(float(col[i]), float(row[key]), rel=1e-6, ab=1e-9):
                        bad.append(('hist', f'{key}[{i}] = {col[i]!r}, specified {row[key]}'))
        for key in g:
            if len(g[key][()]) != len(b['hist']):
                bad.append(('hist', f'{key} has {len(g[key][()])} entries for {len(b["hist"])} iterations'))
    return bad


CACHE = {}


def explore(rep, cfgs, menu, emit, invs=INVS, props=PROPS, label='design'):
    d = workdir(rep)
    path = os.path.join(d, f'{label}.json')
    with open(path, 'w') as f:
        json.dump({'configs': cfgs, 'menu': menu, 'emit': emit}, f)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
    cfg += ''.join(f'INVARIANT {i}\n' for i in invs)
    cfg += ''.join(f'PROPERTY {p}\n' for p in props)
    t0 = time.time()
    r = tlc('Fides', cfg, env={'CONFIGS': path}, timeout=3000)
    if not r.ok:
        # the design itself is inconsistent: an error of the machinery
        need(r, label)
    rep.add_tlc(r)
    os.remove(path)
    rep.extra[label + '_tlc_s'] = round(time.time() - t0, 1)
    seen = {}
    for b in r.out:
        seen[json.dumps(b, sort_keys=True)] = b
    return list(seen.values())


NARROW = [MENU[0], MENU[1]] + [m for m in MENU if m['later'] and (
    m['cls'] == 'nan' or m['r'] in ('-1.3', '0.1', '0.5', '1.6'))]
# configurations explored more deeply for a property
DEEP = {'C13': lambda c: c['scheme']['name'] in ('BFGS', 'DFP', 'SR1', 'Broyden', 'BG'),
        'C14': lambda c: c['scheme']['name'] not in ('exact', 'BFGS', 'DFP', 'SR1', 'Broyden', 'BG'),
        'C15': lambda c: c['scheme']['name'] in ('BFGS', 'SR1', 'HybridFixed'),
        'C05': lambda c: any(k in c['opts'] for k in ('xtol', 'grtol', 'maxtime')),
        'C07': lambda c: 'maxtime' in c['opts'],
        'C04': lambda c: 'mu' in c['opts'] or 'theta_max' in c['opts']}


_bounded = lambda c: c['lb'] != ['-inf'] or c['ub'] != ['inf']  # noqa: E731
_exact = lambda c: c['scheme']['name'] == 'exact'  # noqa: E731
# configurations that are relevant for a property (quick tier)
SELECT = {
    'C01': _bounded, 'C19': lambda c: _exact(c) and (_bounded(c) or c['x0'] == ['0.5']),
    'C12': lambda c: _bounded(c) and _exact(c),
    'C05': lambda c: _exact(c) and not c['x0'][0].startswith('-') and c['f0'] == '5',
    'C07': lambda c: _exact(c) and (not _bounded(c) or 'maxtime' in c['opts']),
    'C13': lambda c: not _exact(c), 'C14': lambda c: not _exact(c),
    'C15': lambda c: not _exact(c) or c['x0'] == ['0.5'],
    'C04': lambda c: _exact(c) and set(c['opts']) & {'mu', 'theta_max', 'delta_init', 'gamma1'},
}


def batch(rep, cfgs, menu, hist, label, props=PROPS):
    out = explore(rep, cfgs, menu, True, props=props, label=label)
    rep.count('behaviours', len(out))
    jobs = [(b, cfgs[b['c'] - 1], i + SEED, hist) for i, b in enumerate(out)]
    res = pmap(replay, jobs, chunk=64)
    rep.traces += len(jobs)
    for (b, cfg, i, _), bad in zip(jobs, res):
        for q, msg in bad:
            if rep.prop in GROUP[q]:
                rep.fail('replay.' + q, {'config': cfg, 'mismatch': msg},
                         {'config': cfg, 'behaviour': b, 'index': i, 'mismatch': msg})
    if out:
        rep.sample({'behaviour': {'config': cfgs[out[0]['c'] - 1], 'flag': out[0]['flag'],
                                  'outcomes': [e['out'] for e in out[0]['log']]}})
    return res


def run(rep, hist=False):
    depth = 3 if THOROUGH else 2
    sel = SELECT.get(rep.prop, lambda c: True)
    cfgs = [c for c in configs(depth) if THOROUGH or sel(c)]
    if not THOROUGH and rep.prop not in SELECT:
        cfgs = cfgs[int(rep.prop[1:]) % 2::2]
    res = batch(rep, cfgs, MENU, hist, 'design')
    deep = [c for c in configs(6 if THOROUGH else 4)
            if int(c['opts']['maxiter']) > 1 and
            DEEP.get(rep.prop, lambda c: c['scheme']['name'] == 'exact')(c)]
    if not THOROUGH:
        k = (SEED + int(rep.prop[1:])) % max(1, len(deep))
        deep = (deep[k:] + deep[:k])[:2]
    else:
        deep = deep[:8]
    res += batch(rep, deep, NARROW, hist, 'deep')
    if not THOROUGH and rep.prop not in ('C05', 'C07', 'C04'):
        return res
    edge = explore(rep, [c for c in configs(depth) if c['scheme']['name'] == 'exact'],
                   [m for m in MENU if m['initial'] or m['cls'] in ('nan', 'flat')] + EDGE, False,
                   props=PROPS + ['C07_Terminates'], label='edge')
    assert not edge
    return res
