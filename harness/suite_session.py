"""C08: sessions of several runs, enumerated by Session.tla, executed in the
real code and judged by SessionTrace.tla."""
import copy
import hashlib
import json
import logging
import os
import shutil
import sys
import tempfile
import threading
import warnings

import numpy as np

import rec
import scen
from common import Deadline, NPROC, SEED, THOROUGH, mat, need, num, pmap, tlc, tlc_cases, vec, workdir
from rec import fides, jsnap, snap

warnings.simplefilter('ignore')


class UserError(Exception):
    pass


class Hang(BaseException):
    pass


# ------------------------------------------------------------------ problems
def rosen(n):
    return scen.smooth('rosen', None, n)


def dented(n, seed):
    """Smooth, but not defined in a small region: some steps are rejected."""
    rng = np.random.default_rng(seed)
    base = scen.smooth('styb', rng, n)

    def fun(x):
        f, g, h = base(x)
        if -1.2 < x[0] < -.8:
            return np.nan, g, h
        return f, g, h
    return fun


def problems():
    inf = np.inf
    ps = []

    def add(n, fun, lb, ub, x0, x1, scheme=None, res=False, nout=3, **opts):
        opts.setdefault('maxiter', 12)
        ps.append(dict(n=n, fun=fun, lb=np.array(lb, dtype=float), ub=np.array(ub, dtype=float),
                       x0=np.array(x0, dtype=float), x1=np.array(x1, dtype=float),
                       scheme=scheme, res=res, nout=nout, opts=opts,
                       args={'shift': 2. * len(ps), 'table': [1., 2.]} if len(ps) % 2 else None))
    S = lambda name, **k: dict(name=name, **k)  # noqa: E731
    add(2, rosen(2), [-2, -2], [2, 1.5], [-1.2, 1], [2, -2])
    add(3, dented(3, 1), [-4, -4, -4], [4, inf, 2], [2, 1, -3], [-4, 3, 2], stepback_strategy='mixed',
        subspace_solver='full', delta_init=3.)
    add(2, rosen(2), [-2, -2], [2, 1.5], [-1.2, 1], [0, 0], S('BFGS'), nout=2)
    add(2, dented(2, 3), [-4, -inf], [4, 5], [2, 1], [-2, 4], S('SR1'), nout=2,
        stepback_strategy='truncate', subspace_solver='scg', delta_init=2.)
    add(2, rosen(2), [-2, -2], [2, 1.5], [-1.2, 1], [1, -1],
        S('HybridFixed', switch_iteration=2), maxiter=15)
    add(2, rosen(2), [-inf] * 2, [inf, 3], [-1.2, 1], [3, 3],
        S('HybridFraction', switch_threshold=.1, happ=S('DFP')), maxiter=32, mu=.01, eta=5., gatol=0.,
        fatol=0., frtol=0.)
    add(2, rosen(2), [-inf] * 2, [inf, 3], [-1.2, 1], [.5, 2.5],
        S('HybridFraction', switch_threshold=1., happ=S('SR1')), maxiter=34, mu=.01, eta=5., gatol=0.,
        fatol=0., frtol=0., delta_init=.02)
    R = lambda k, n, s=5: scen.residuals(k, np.random.default_rng(s), n)  # noqa: E731
    add(2, R('rosen', 2), [-2, -2], [2, 1.5], [-1.2, 1], [1, -1], S('FX', hybrid_tol=.3), res=True)
    add(3, R('exp', 3), [-1] * 3, [1, 2, inf], [.5, -.5, .2], [0, 0, 1], S('SSM'), res=True)
    add(2, R('rosen', 2), [-2, -2], [2, 1.5], [-1.2, 1], [1, -1], S('TSSM', phi=.5), res=True)
    add(2, R('trig', 2), [-3, -3], [3, 3], [1.2, 1], [-1, 2], S('GNSBFGS', hybrid_tol=.1), res=True)
    add(2, rosen(2), [-2, -2], [2, 1.5], [-1.2, 1], [0, 1], S('Broyden', phi=.3), nout=2,
        stepback_strategy='reflect_single', fatol=1e-3)
    add(1, scen.smooth('styb', None, 1), [-5], [4], [1], [-4.5], gatol=1e-4)
    add(3, scen.smooth('exp', np.random.default_rng(4), 3), [-1, -2, -1], [1, 1, 1], [.5, -.5, .5],
        [-.5, .5, 0], S('BG'), nout=2, maxiter=9)
    add(3, scen.smooth('quad', np.random.default_rng(9), 3), [-1, -1, -1], [1, 2, 1], [.5, .5, -.5],
        [0, 0, 0], S('DFP', enforce_curv_cond=False), nout=2, stepback_strategy='refine', maxiter=8)
    return ps


INPUTS = ['good', 'other', 'h0', 'hess', 'outside', 'nanstart', 'nangrad', 'raise', 'raise0', 'interrupt', 'shape']


# ---------------------------------------------------------------- execution
def dig(o):
    return hashlib.sha1(json.dumps(o, sort_keys=True).encode()).hexdigest()[:14]


class Baton:
    """Two threads take turns; only the owner runs."""

    def __init__(self, sched):
        self.sched, self.pos = sched, 0
        self.owner = sched[0]
        self.done = set()
        self.cond = threading.Condition()

    def start(self, me):
        with self.cond:
            self.cond.wait_for(lambda: self.owner == me, 30)

    def turn(self, me):
        with self.cond:
            self.pos += 1
            nxt = self.sched[self.pos % len(self.sched)]
            if nxt in self.done:
                nxt = me
            self.owner = nxt
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.owner == me, 30)

    def finish(self, me):
        with self.cond:
            self.done.add(me)
            self.owner = 3 - me
            self.cond.notify_all()


class Slot:
    def __init__(self, p, idx, verb, hist):
        self.p, self.idx, self.verb, self.hist = p, idx, verb, hist
        self.runs = 0
        self.x0 = {'good': p['x0'].copy(), 'other': p['x1'].copy()}
        out = p['x0'].copy()
        b = [j for j in range(p['n']) if np.isfinite(p['ub'][j])]
        out[b[0]] = p['ub'][b[0]] + .125
        self.x0['outside'] = out
        a = np.arange(p['n'] * p['n']).reshape(p['n'], p['n']) % 3
        self.hess0 = np.eye(p['n']) * 4 + .25 * (a + a.T)
        self.create(True)

    def create(self, newscheme):
        p = self.p
        if newscheme:
            self.scheme = scen.make_scheme(p['scheme'])
        self.lb, self.ub = p['lb'].copy(), p['ub'].copy()
        self.options = dict(p['opts'])
        self.args = copy.deepcopy(p['args'])
        if self.hist:
            self.options['history_file'] = self.hist
        self.opt = fides.Optimizer(self, self.ub, self.lb, verbose=self.verb, options=self.options,
                                   hessian_update=self.scheme, resfun=p['res'], funargs=self.args)

    def own(self):
        d = {'lb': vec(self.lb), 'ub': vec(self.ub), 'hess0': mat(self.hess0),
             'args': repr(self.args), 'opts': sorted((k, repr(v)) for k, v in self.options.items() if k != 'history_file')}
        d.update({k: vec(v) for k, v in self.x0.items()})
        return dig(d)

    def __call__(self, x, **args):
        p = self.p
        k = len(self.xs)
        st = jsnap(snap(self.opt)) if k else {}
        if k == 1:
            st.pop('ratio')      # no trial was judged yet
        self.states.append(dig(st))
        self.xs.append(dig([vec(x), repr(sorted(args.items()))]))
        if self.hook:
            self.hook(k)
        out = p['fun'](np.array(x))[:p['nout']]
        what = self.what
        if what == 'raise' and k == 2:
            raise UserError()
        if what == 'raise0' and k == 0:
            raise UserError()
        if what == 'interrupt' and k == 3:
            raise KeyboardInterrupt()
        if what == 'shape' and k == 0:
            out = (out[0], np.zeros((len(out[0]), p['n'] + 1))) if p['res'] else \
                (out[0], np.zeros(p['n'] + 1)) + tuple(out[2:])
        if what == 'nanstart' and k == 0:
            out = (out[0] * np.nan,) + tuple(out[1:])
        if what == 'nangrad' and k == 2:
            f = out[0] if p['res'] else 1.0
            out = (f, out[1] * np.nan) + tuple(out[2:])
        self.fs.append(num(out[0]) if not p['res'] else vec(out[0]))
        return out

    def run(self, what, hook=None):
        p = self.p
        self.what, self.hook = what, hook
        self.xs, self.fs, self.states = [], [], []
        self.runs += 1
        x0 = self.x0.get(what, self.x0['good'])
        h0 = None
        if p['scheme'] is not None:
            if what == 'h0':
                h0 = self.hess0
            elif what == 'hess' and (p['res'] or p['nout'] == 3):
                h0 = 'hess'
        out = dict(kind='return', exc='', ret='')
        try:
            with np.errstate(all='ignore'):
                ret = self.opt.minimize(x0, hess0=h0, start_id=f'run{self.idx}_{self.runs}')
            out['ret'] = dig([num(ret[0]), vec(ret[1]), vec(ret[2]), mat(ret[3])])
            self.ret = ret
        except Hang:
            raise
        except (Exception, KeyboardInterrupt) as e:
            out['kind'], out['exc'] = 'raise', type(e).__name__
            self.ret = None
        s = snap(self.opt)
        best = ''
        if self.fs and s['fmin'] != np.inf:
            best = dig([num(s['fmin']), vec(s['xmin']), vec(s['gmin'])])
        out.update(xs=self.xs, fs=[dig(f) for f in self.fs], states=self.states[1:],
                   flag=fides.constants.ExitFlag(s['flag']).name, conv=s['conv'], iter=s['iter'], best=best)
        return {'key': f"{self.pidx}:{what if what in INPUTS else 'good'}", 'what': what, 'out': out}


PS = problems()


def slot(pidx, idx, verb=rec.SILENT, hist=None):
    s = Slot(PS[pidx], idx, verb, hist)
    s.pidx = pidx
    return s


def reference(job):
    pidx, what = job
    return slot(pidx, 1).run(what)


def keep(r):
    return dig([num(r[0]), vec(r[1]), vec(r[2]), mat(r[3])])


def session(job):
    """Executes one session; returns the record that SessionTrace reads."""
    conf, ops, seed = job
    tmp = tempfile.mkdtemp(prefix='fides_s_')
    stderr, stdout = sys.stderr, sys.stdout
    null = open(os.devnull, 'w')
    logging.getLogger('fides').setLevel(rec.SILENT)

    limit = Deadline(60, Hang)
    case = {'conf': conf, 'plan': ops, 'ops': [], 'seed': seed}
    results = []
    try:
        limit.__enter__()
        sys.stderr, sys.stdout = null, null
        for h in list(logging.getLogger('fides').handlers):
            if hasattr(h, 'setStream'):
                h.setStream(null)
        verb = conf['verb']
        sl = {k: slot(conf['p'][k - 1], k, verb[k - 1],
                      os.path.join(tmp, f'h{k}.h5') if conf['hist'][k - 1] else None) for k in (1, 2)}
        own = lambda: [sl[1].own(), sl[2].own()]  # noqa: E731
        case['own'] = own()

        def ended(s):
            if s.ret is not None:
                results.append(s.ret)
        for o in ops:
            r = {'op': o['op']}
            if o['op'] == 'run':
                s = sl[o['slot']]
                r['runs'] = [s.run(o['input'])]
                ended(s)
            elif o['op'] == 'nest':
                s, t = sl[o['slot']], sl[3 - o['slot']]
                inner = []

                def hook(k, t=t, inner=inner):
                    if k == 2:
                        inner.append(t.run('good'))
                        ended(t)
                a = s.run('good', hook)
                ended(s)
                r['runs'] = inner + [a]
            elif o['op'] == 'mix':
                ba = Baton(o['sched'])
                runs = {}

                def go(me, ba=ba, runs=runs):
                    ba.start(me)
                    try:
                        runs[me] = sl[me].run('good', lambda k: ba.turn(me))
                    finally:
                        ba.finish(me)
                ths = [threading.Thread(target=go, args=(me,), daemon=True) for me in (1, 2)]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join(40)
                r['runs'] = [runs[1], runs[2]]
                ended(sl[1])
                ended(sl[2])
            r['own'] = own()
            r['kept'] = [keep(q) for q in results]
            if o['op'] == 'renew':
                sl[o['slot']].create(False)
            elif o['op'] == 'fresh':
                sl[o['slot']].create(True)
            elif o['op'] == 'scribble':
                for q in results:
                    for a in q[1:]:
                        a[...] = 3.25
            r['nextown'] = own()
            r['nextkept'] = [keep(q) for q in results]
            case['ops'].append(r)
    except Hang:
        case['err'] = 'did not terminate'
    except Exception as e:
        case['err'] = repr(e)[:300]
    finally:
        limit.__exit__()
        sys.stderr, sys.stdout = stderr, stdout
        null.close()
        for h in list(logging.getLogger('fides').handlers):
            if hasattr(h, 'setStream'):
                h.setStream(sys.__stderr__)
        shutil.rmtree(tmp, ignore_errors=True)
    return case


def references():
    import multiprocessing as mp
    jobs = [(p, w) for p in range(len(PS)) for w in INPUTS]
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
        res = pool.map(reference, jobs, chunksize=1)
    return {r['key']: r['out'] for r in res}


def pairs(rng):
    P = len(PS)
    out = []
    verbs = [rec.SILENT, 10, 20, 30, 40]
    off = int(rng.integers(1, P))
    for k in range(P):
        out.append(dict(p=[k, (k + off) % P], verb=[verbs[(k + SEED) % 5], verbs[(2 * k + 1) % 5]],
                        hist=[k % 2 == 0, k % 3 == 0]))
    out.append(dict(p=[2, 2], verb=[10, rec.SILENT], hist=[True, True]))
    out.append(dict(p=[4, 4], verb=[20, 10], hist=[False, True]))
    return out


def run(rep):
    memo = references()
    d = workdir(rep)
    mpath = os.path.join(d, 'memo.json')
    with open(mpath, 'w') as f:
        json.dump(memo, f)
    rng = np.random.default_rng([SEED, 8])
    ps = pairs(rng)
    path = os.path.join(d, 'session_configs.json')
    plans = []
    menus = [(ps, INPUTS, 1), (ps, INPUTS, 2)]
    if THOROUGH and rep.prop == 'C08':
        menus.append((ps, ['good', 'h0', 'interrupt', 'nangrad', 'outside'], 3))
    for cs, inputs, depth in menus:
        with open(path, 'w') as f:
            json.dump({'pairs': cs, 'inputs': inputs, 'depth': depth, 'last': 'good'}, f)
        r = tlc('Session', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'CONFIGS': path}, timeout=3000)
        need(r, 'Session')
        rep.add_tlc(r)
        got = [(cs[o['c'] - 1], o['ops']) for o in r.out]
        most = None if THOROUGH and rep.prop == 'C08' else 2600 if rep.prop == 'C08' or THOROUGH else 420
        if depth > 1 or rep.prop != 'C08':
            got = [got[j] for j in rng.permutation(len(got))[:most]]
        plans += got
    rep.count('sessions', len(plans))
    cases = pmap(session, [(c, o, k) for k, (c, o) in enumerate(plans)], chunk=8)
    for c in cases:
        if 'err' in c:
            rep.fail(rep.prop + '.session', {'error': c['err'], 'conf': c['conf'], 'plan': c['plan']}, c)
    good = [c for c in cases if 'err' not in c]
    rep.count('runs_compared', sum(len(o.get('runs', [])) for c in good for o in c['ops']))
    rep.sample({'conf': good[0]['conf'], 'plan': good[0]['plan']})
    rep.sample({'conf': good[-1]['conf'], 'plan': good[-1]['plan']})
    for k in range(0, len(good), 4000):
        part = good[k:k + 4000]
        out, odd = tlc_cases(rep, 'SessionTrace', 'CASES', part, f'sessions{k}', {'MEMO': mpath})
        for o in out:
            c = part[o['t'] - 1]
            for cl in o['f']:
                if cl.startswith(rep.prop):
                    rep.fail(cl, {'op': o['k'], 'conf': c['conf'], 'plan': c['plan']},
                             {'conf': c['conf'], 'plan': c['plan'], 'op': o['k']})
        for i in odd:
            rep.fail('type', {'plan': part[i]['plan']}, part[i])
