"""C16: sessions of runs that share a history file, enumerated by HistFile.tla
and judged by HistFileTrace.tla; single runs are judged by FidesTrace.tla."""
import json
import os
import pathlib
import shutil
import tempfile

import h5py
import numpy as np

import scen
import suite_session as ss
from common import NPROC, SEED, THOROUGH, need, pmap, tlc, tlc_cases, workdir
from rec import fides

RETURNS = {'ok': True, 'short': True, 'limit': True, 'nest': True, 'raise': False, 'nan': False,
           'start': False, 'outside': False, 'kill': False}
INPUT = {'ok': 'good', 'short': 'other', 'limit': 'good', 'nest': 'good', 'raise': 'raise',
         'nan': 'nangrad', 'start': 'nanstart', 'outside': 'outside', 'kill': 'good'}
PROBS = [0, 2, 7, 4, 9, 3]


class Kill(BaseException):
    pass


class Slot(ss.Slot):
    limited = False

    def create(self, newscheme):
        super().create(newscheme)
        if self.hist and self.limited:
            self.options['maxiter'] = 0
            self.opt = fides.Optimizer(self, self.ub, self.lb, verbose=self.verb, options=self.options,
                                       hessian_update=self.scheme, resfun=self.p['res'])

    def go(self, kind, ident, inner=None):
        what = INPUT[kind]
        self.what = what
        self.xs, self.fs, self.states = [], [], []

        def hook(k):
            if kind == 'kill' and k == 2:
                raise Kill()
            if kind == 'nest' and k == 2 and inner:
                inner()
        self.hook = hook
        x0 = self.x0.get(what, self.x0['good'])
        try:
            with np.errstate(all='ignore'):
                self.opt.minimize(x0, start_id=ident or None)
            return 'return'
        except Kill:
            return 'kill'
        except Exception as e:
            return type(e).__name__


def contents(path):
    res = {}
    if os.path.exists(path):
        with h5py.File(path, 'r') as f:
            for k in f:
                res[k] = ss.dig(scen.read_group(f[k])) if isinstance(f[k], h5py.Group) else 'dataset'
    return res


def slots(path, probs):
    res = {}
    for k, p in enumerate(probs, 1):
        for lim in (False, True):
            s = Slot.__new__(Slot)
            s.limited = lim
            s.pidx = p
            Slot.__init__(s, ss.PS[p], k, ss.rec.SILENT, pathlib.Path(path) if k % 2 else path)
            res[k, lim] = s
    return res


def content_of(job):
    p, kind = job
    tmp = tempfile.mkdtemp(prefix='fides_h_')
    try:
        path = os.path.join(tmp, 'h.h5')
        s = slots(path, [p])[1, kind == 'limit']
        end = s.go(kind, 'name')
        return f'{p}:{kind}', contents(path).get('name', 'missing'), end
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def session(job):
    probs, ops, pre = job
    tmp = tempfile.mkdtemp(prefix='fides_h_')
    case = {'plan': ops, 'probs': probs, 'ops': []}
    try:
        path = os.path.join(tmp, 'h.h5')
        if pre:
            with h5py.File(path, 'w') as f:
                f.create_group('foreign').create_dataset('data', data=[1., 2., 3.])
        sl = slots(path, probs)

        def stray():
            return sorted(x for x in os.listdir(tmp) if x != 'h.h5')
        case['file'], case['stray'] = contents(path), stray()
        for o in ops:
            runs = []

            def rec_(p, kind, ident, end):
                runs.append({'id': ident, 'returns': RETURNS[kind], 'ended': end, 'key': f'{probs[p - 1]}:{kind}'})
            kind = o['kind']
            s = sl[o['opt'], kind == 'limit']

            def inner(o=o):
                q = o['opt'] % len(probs) + 1
                rec_(q, 'short', 'inner', sl[q, False].go('short', 'inner'))
            end = s.go(kind, o['id'], inner)
            rec_(o['opt'], kind, o['id'], end)
            case['ops'].append({'op': o, 'runs': runs, 'file': contents(path), 'stray': stray()})
    except Exception as e:
        case['err'] = repr(e)[:300]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return case


def run(rep):
    import multiprocessing as mp
    jobs = [(p, k) for p in PROBS for k in RETURNS if RETURNS[k]]
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
        res = pool.map(content_of, jobs, chunksize=1)
    d = workdir(rep)
    mpath = os.path.join(d, 'contents.json')
    with open(mpath, 'w') as f:
        json.dump({k: c for k, c, _ in res}, f)
    path = os.path.join(d, 'hist_configs.json')
    rng = np.random.default_rng([SEED, 16])
    plans = []
    menus = [(2, list(RETURNS), ['a', '']), (3, ['ok', 'raise', 'nest', 'limit'], ['a', 'b']),
             (2, list(RETURNS), ['a', 'b'])]
    if THOROUGH:
        menus.append((3, ['ok', 'short', 'nan', 'kill', 'limit', 'nest'], ['a', 'b', '']))
    for depth, kinds, ids in menus:
        with open(path, 'w') as f:
            json.dump({'depth': depth, 'optimizers': 2, 'kinds': kinds, 'ids': ids}, f)
        r = tlc('HistFile', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Grows\n', workers=1,
                env={'CONFIGS': path}, timeout=3000)
        need(r, 'HistFile')
        rep.add_tlc(r)
        plans += [o['ops'] for o in r.out]
    if not THOROUGH:
        plans = [plans[j] for j in rng.permutation(len(plans))[:2500]]
    jobs = []
    for k, ops in enumerate(plans):
        a, b = rng.choice(PROBS, 2)
        jobs.append(([int(a), int(b)], ops, k % 3 == 0))
    cases = pmap(session, jobs, chunk=16)
    rep.count('file_sessions', len(cases))
    for c in cases:
        if 'err' in c:
            rep.fail('C16.session', {'error': c['err'], 'plan': c['plan']}, c)
    good = [c for c in cases if 'err' not in c]
    rep.sample({'probs': cases[0]['probs'], 'plan': cases[0]['plan']})
    for k in range(0, len(good), 4000):
        part = good[k:k + 4000]
        out, odd = tlc_cases(rep, 'HistFileTrace', 'CASES', part, f'files{k}', {'MEMO': mpath})
        for o in out:
            c = part[o['t'] - 1]
            for cl in o['f']:
                if cl.startswith(rep.prop):
                    rep.fail(cl, {'op': o['k'], 'plan': c['plan'], 'probs': c['probs']}, c)
        for i in odd:
            rep.fail('type', {'plan': part[i]['plan']}, part[i])
