"""Runs fides and records what can be observed from outside.

An event is one call of the objective: the state of the optimizer's public
attributes before the call, the point, and what the objective returned.  The
state after iteration k is the state before call k + 1 (or the final state).
"""
import logging
import os
import sys
import threading
import time as _time

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')

import numpy as np  # noqa: E402

import logcap  # noqa: E402
from common import Deadline, mat, num, setup_repo, vec  # noqa: E402

setup_repo()
import fides  # noqa: E402
import fides.minimize as fmin  # noqa: E402
from fides.constants import Options  # noqa: E402

SILENT = 60


class Hang(BaseException):
    pass


class Clock:
    """Replaces the clocks of the time module while a run is active."""

    names = ('time', 'monotonic', 'perf_counter', 'process_time')

    def __init__(self, start=1000.0):
        self.t = start

    def __enter__(self):
        self.old = {k: getattr(_time, k) for k in self.names}
        for k in self.names:
            setattr(_time, k, lambda: self.t)
        ns = {'time_ns': 1, 'monotonic_ns': 1, 'perf_counter_ns': 1}
        self.oldns = {k: getattr(_time, k) for k in ns}
        # names imported from the time module
        new = {id(v): (lambda: self.t) for v in self.old.values()}
        new.update({id(v): (lambda: int(self.t * 1e9)) for v in self.oldns.values()})
        self.bound = []
        for name, mod in list(sys.modules.items()):
            if name == 'fides' or name.startswith('fides.'):
                for a, v in list(vars(mod).items()):
                    if id(v) in new:
                        self.bound.append((mod, a, v))
                        setattr(mod, a, new[id(v)])
        for k in ns:
            setattr(_time, k, lambda: int(self.t * 1e9))
        return self

    def __exit__(self, *a):
        for mod, a, v in self.bound:
            setattr(mod, a, v)
        for k, v in {**self.old, **self.oldns}.items():
            setattr(_time, k, v)


def opt_name(k):
    return k.value if isinstance(k, Options) else str(k)


def opt_dict(options):
    """Options as a record of strings (what the caller asked for)."""
    res = {}
    for k, v in (options or {}).items():
        if isinstance(v, str):
            res[opt_name(k)] = str(getattr(v, 'value', v))
        elif isinstance(v, os.PathLike):
            res[opt_name(k)] = str(v)
        else:
            res[opt_name(k)] = num(v)
    return res


def scheme_info(h):
    if h is None:
        return {'name': 'exact'}
    d = {'name': type(h).__name__}
    inner = getattr(h, 'hessian_update', None)
    if inner is not None and hasattr(inner, 'get_mat'):
        d['inner'] = scheme_info(inner)
    for a in ('phi', 'switch_threshold', 'hybrid_tol'):
        if hasattr(h, a) and np.isscalar(getattr(h, a)):
            d[a] = num(getattr(h, a))
    if hasattr(h, 'switch_iteration'):
        d['switch_iteration'] = int(h.switch_iteration)
    if hasattr(h, 'enforce_curv_cond'):
        d['curv'] = bool(h.enforce_curv_cond)
    return d


def _arr(a):
    return None if a is None else np.array(a, dtype=float, copy=True)


def snap(opt):
    """Copy of the optimizer's public state."""
    g = lambda k, d=None: getattr(opt, k, d)  # noqa: E731
    s = dict(
        x=_arr(g('x')), f=float(g('fval')), g=_arr(g('grad')),
        h=_arr(g('hess')), delta=float(g('delta')), xmin=_arr(g('x_min')),
        fmin=float(g('fval_min')), gmin=_arr(g('grad_min')),
        ratio=g('tr_ratio', None), flag=int(g('exitflag')),
        conv=bool(g('converged')), iter=int(g('iteration')),
    )
    hu = g('hessian_update')
    if hu is not None:
        inner = getattr(hu, 'hessian_update', None)
        if inner is not None and hasattr(inner, 'get_mat'):
            s['inner'] = _arr(inner.get_mat())
        a = getattr(hu, 'A', None)
        if a is not None and getattr(a, 'ndim', 0) == 2:
            s['A'] = _arr(a)
    return s


def jsnap(s):
    """Snapshot in the form the specification reads."""
    d = dict(
        x=vec(s['x']), f=num(s['f']), g=vec(s['g']), h=mat(s['h']),
        delta=num(s['delta']), xmin=vec(s['xmin']), fmin=num(s['fmin']),
        gmin=vec(s['gmin']),
        ratio='none' if s['ratio'] is None else num(s['ratio']),
    )
    for k in ('inner', 'A'):
        if k in s:
            d[k] = mat(s[k])
    for k in ('v', 'dv'):
        if k in s:
            d[k] = vec(s[k])
    for k in ('theta', 'tdelta'):
        if k in s:
            d[k] = num(s[k])
    if 'scal' in s:
        d['scal'] = vec(s['scal'])
    if 'tstep' in s:
        d['tstep'] = s['tstep']
    return d


def said(st):
    """What a step says about itself, as far as it does in the known form."""
    d = {}
    try:
        if isinstance(st.type, str):
            d['step_type'] = st.type
        for k in ('alpha', 'theta'):
            if np.ndim(getattr(st, k)) == 0:
                d[k] = num(getattr(st, k))
        for a, k in (('reflection_count', 'reflections'), ('truncation_count', 'truncations')):
            if isinstance(getattr(st, a, None), (int, np.integer)):
                d[k] = num(getattr(st, a))
        if getattr(st.subspace, 'ndim', 0) == 2:
            d['subspace_dim'] = num(st.subspace.shape[1])
    except Exception:
        pass
    return d


class Recorder:
    """Wraps an objective and records one run of an optimizer."""

    def __init__(self, fun, resfun=False, dt=None, spy=True):
        self.fun, self.resfun, self.dt = fun, resfun, dt
        self.opt = None
        self.events = []
        self.spy = spy
        self.trargs = None
        self.cap, self.lines, self.nest = None, [], (-1, 0)

    def __call__(self, x, **kw):
        s = snap(self.opt)
        k = len(self.events)
        if self.cap is not None:
            self.lines.append(self.cap.take())
            if k == self.nest[0]:
                keep = self.trargs
                logcap.bystander(self.nest[1])
                self.trargs = keep
                self.cap.skip()
        if self.spy and k > 0:
            try:
                v, dv = self.opt.get_affine_scaling()
                s['v'], s['dv'] = _arr(v), _arr(dv)
            except Exception:
                pass
            if self.trargs is not None:
                s.update(self.trargs)
                self.trargs = None
        xin = np.array(x, dtype=float, copy=True)
        out = self.fun(x, **kw)
        ev = dict(k=k, x=xin, pre=s)
        if self.resfun:
            res, sres = out
            ev['res'], ev['sres'] = _arr(res), _arr(sres)
            with np.errstate(all='ignore'):
                ev['f'] = float(0.5 * np.dot(ev['res'], ev['res']))
                ev['g'] = np.dot(ev['res'], ev['sres'])
                ev['h'] = np.dot(ev['sres'].T, ev['sres'])
        else:
            ev['f'], ev['g'] = float(out[0]), _arr(out[1])
            if len(out) > 2:
                ev['h'] = _arr(out[2])
        if self.dt is not None:
            ev['dt'] = float(self.dt(k))
            self.clock.t += ev['dt']
        self.events.append(ev)
        return out

    def tr_spy(self, orig):
        import functools
        import inspect
        try:
            sig = inspect.signature(orig)
        except (TypeError, ValueError):
            return orig
        me = threading.get_ident()

        @functools.wraps(orig)
        def wrapped(*a, **kw):
            if threading.get_ident() == me:
                try:
                    b = sig.bind(*a, **kw).arguments
                    d = {}
                    if 'theta' in b:
                        d['theta'] = float(b['theta'])
                    if 'delta' in b:
                        d['tdelta'] = float(b['delta'])
                    if 'scaling' in b and hasattr(b['scaling'], 'diagonal'):
                        d['scal'] = _arr(b['scaling'].diagonal())
                    self.trargs = d
                except Exception:
                    self.trargs = None
            st = orig(*a, **kw)
            if threading.get_ident() == me and self.trargs is not None:
                self.trargs['tstep'] = said(st)
            return st
        return wrapped


def record(make, x0, hess0=None, start_id=None, resfun=False, fun=None,
           dt=None, limit=20, spy=True, optimizer=None, meta=None,
           lb=None, ub=None, options=None, hessian_update=None, verbose=SILENT,
           funargs=None, log=None):
    """One run.  Returns the trace as a JSON-able dict."""
    r = Recorder(fun, resfun, dt, spy)
    tr = {'meta': meta or {}, 'ev': []}
    tr['cfg'] = {
        'n': int(len(ub)), 'lb': vec(lb), 'ub': vec(ub),
        'opts': opt_dict(options), 'scheme': scheme_info(hessian_update),
        'resfun': bool(resfun), 'x0': vec(np.asarray(x0, dtype=float)),
        'hess0': 'none' if hess0 is None else
        ('hess' if isinstance(hess0, str) else 'given'),
        'clock': dt is not None,
    }
    if hess0 is not None and not isinstance(hess0, str):
        tr['cfg']['h0'] = mat(np.asarray(hess0, dtype=float))
    end = {}
    clock = Clock() if dt is not None else None
    r.clock = clock
    oldtr = getattr(fmin, 'trust_region', None)
    guard = None
    main = threading.current_thread() is threading.main_thread()
    if log is not None:
        # what is printed, by the evaluation it follows
        tr['verbose'] = int(verbose)
        r.cap = logcap.Capture()
        r.cap.__enter__()
    try:
        if main and limit:
            guard = Deadline(limit, Hang)
            guard.__enter__()
        opt = optimizer
        if opt is None:
            opt = fides.Optimizer(r, ub, lb, verbose=verbose, options=options,
                                  hessian_update=hessian_update, resfun=resfun,
                                  funargs=funargs)
        else:
            opt.fevaler.fun = r
        r.opt = opt
        if spy and oldtr is not None:
            fmin.trust_region = r.tr_spy(oldtr)
        if clock:
            clock.__enter__()
        if log is not None:
            if log.get('warm'):
                # an earlier run of the same optimizer
                try:
                    with np.errstate(all='ignore'):
                        opt.minimize(x0, start_id=start_id and start_id + ' 0', hess0=hess0)
                except Exception:
                    pass
                r.events.clear()
                r.lines.clear()
                log['restart']()
            r.nest = log.get('nest', (-1, 0))
            r.cap.skip()
        with np.errstate(all='ignore'):
            try:
                ret = opt.minimize(x0, start_id=start_id, hess0=hess0)
                end = {'kind': 'return', 'exc': '',
                       'ret': {'f': num(ret[0]), 'x': vec(ret[1]),
                               'g': vec(ret[2]), 'h': mat(ret[3])}}
            except Exception as e:
                end = {'kind': 'raise', 'exc': type(e).__name__,
                       'msg': str(e)[:300]}
    except Hang:
        end = {'kind': 'hang', 'exc': 'Hang'}
    except Exception as e:
        end = {'kind': 'raise', 'exc': type(e).__name__, 'msg': str(e)[:300],
               'create': True}
    finally:
        if r.cap is not None:
            r.lines.append(r.cap.take())
            r.cap.__exit__()
        if guard is not None:
            guard.__exit__()
        if clock and hasattr(clock, 'old'):
            clock.__exit__()
        if oldtr is not None:
            fmin.trust_region = oldtr
    for ev in r.events:
        j = {'k': ev['k'], 'x': vec(ev['x']), 'f': num(ev['f']),
             'g': vec(ev['g']), 'pre': jsnap(ev['pre'])}
        if 'h' in ev:
            j['h'] = mat(ev['h'])
        if 'res' in ev:
            j['res'] = vec(ev['res'])
            j['sres'] = mat(ev['sres'])
        if 'dt' in ev:
            j['dt'] = num(ev['dt'])
        if r.cap is not None:
            j['log'] = r.lines[ev['k'] + 1]
        tr['ev'].append(j)
    if r.opt is not None and end['kind'] != 'hang':
        s = snap(r.opt)
        end['post'] = jsnap(s)
        end['flag'], end['conv'], end['iter'] = s['flag'], s['conv'], s['iter']
    tr['end'] = end
    r.ret = None
    return tr, r
