"""C17: the decision table of Config.tla, executed in the real code."""
import pathlib
import os
import shutil
import tempfile
import warnings

import numpy as np

import rec
import scen
import suite_session as ss
from common import Deadline, SEED, THOROUGH, mat, need, num, pmap, tlc, vec
from rec import fides

warnings.simplefilter('ignore')
from fides.constants import Options, StepBackStrategy, SubSpaceDim  # noqa: E402

# option -> (integer, other number), exact in binary
VALUE = {'maxtime': (6, 7.5), 'fatol': (1, .5), 'frtol': (1, .25), 'xtol': (1, .5), 'gatol': (8, 2.5),
         'grtol': (2, 1.5), 'theta_max': (1, .5), 'delta_init': (3, .125), 'mu': (0, .5), 'eta': (1, .5),
         'gamma1': (1, .125), 'gamma2': (5, 3.5), 'maxiter': (3, 3.5)}
MEMBER = {'subspace_solver': {'TWO': '2D', 'FULL': 'full', 'STEIHAUG': 'scg'},
          'stepback_strategy': {s.name: s.value for s in StepBackStrategy}}


def value(opt, kind, tmp='/nonexistent'):
    i, f = VALUE.get(opt, (3, 2.5))
    if kind.startswith('name:'):
        return kind[5:]
    if kind.startswith('upper:'):
        return kind[6:].upper()
    if kind.startswith('enum:'):
        v = kind[5:]
        return SubSpaceDim(v) if v in ('2D', 'full', 'scg') else StepBackStrategy(v)
    return {
        'int': i, 'float': f, 'npint': np.int64(i), 'npfloat': np.float64(f),
        'npfloat32': np.float32(f), 'floatint': float(i), 'npfloatint': np.float64(i), 'zero': 0,
        'word': 'word', 'numstr': str(i), 'none': None, 'list': [i], 'array': np.array([float(i), f]),
        'complex': complex(i, 1), 'dict': {'a': i}, 'bytes': b'full', 'member': 'STEIHAUG',
        'path': os.path.join(tmp, 'h.h5'), 'pathobj': pathlib.Path(tmp) / 'h.h5',
    }[kind]


UNKNOWN = {'maxiterr': 'maxiterr', 'MAXITER': 'MAXITER', '': '', 'option': 'Options.MAXITER', 'number': 5,
           'nokey': None, 'choice': SubSpaceDim.TWO}


def key(opt, form):
    if form == 'unknown':
        return UNKNOWN[opt]
    return Options(opt) if form == 'enum' else opt


def quad(x):
    return float(x @ x), 2 * x, 2 * np.eye(len(x))


def attempt(fn):
    try:
        return fn(), ''
    except Exception as e:
        return None, type(e).__name__


def make(options, **kw):
    return fides.Optimizer(kw.pop('fun', quad), np.array([2., 3.]), np.array([-2., -3.]),
                           verbose=rec.SILENT, options=options, **kw)


# --------------------------------------------------------------- rows
def create(c):
    o = {key(e['opt'], e['form']): value(e['opt'], e['val']) for e in c['set']}
    opt, err = attempt(lambda: make(o))
    if (err != '') != (c['verdict'] == 'refuse'):
        return f'{c["verdict"]} expected, got {err or "an optimizer"}'
    return ''


def combine(c):
    o = {}
    forms = {'s': lambda: o.update({'subspace_solver' if c['sform'] == 'name' else Options.SUBSPACE_DIM:
                                    c['solver'] if c['sform'] == 'name' else SubSpaceDim(c['solver'])}),
             't': lambda: o.update({'stepback_strategy' if c['tform'] == 'name' else Options.STEPBACK_STRAT:
                                    c['strategy'] if c['tform'] == 'name' else StepBackStrategy(c['strategy'])})}
    given = {'s': c['sform'] != 'omitted', 't': c['tform'] != 'omitted'}
    for k in ('s', 't') if c['order'] == 's' else ('t', 's'):
        if given[k]:
            forms[k]()
    opt, err = attempt(lambda: make(o))
    if (err != '') != (c['verdict'] == 'refuse'):
        return f'{c["verdict"]} expected, got {err or "an optimizer"}'
    if err and err != 'ValueError':
        return f'ValueError expected, got {err}'
    return ''


ARGS = {'Broyden': {'phi': .5}}


def scheme(name):
    return None if name == 'exact' else getattr(fides, name)(**ARGS.get(name, {}))


def mode(c):
    calls = []

    def fun(x):
        calls.append(1)
        return quad(x)
    opt, err = attempt(lambda: make({'subspace_solver': c['solver']}, fun=fun, hessian_update=scheme(c['scheme']),
                                    resfun=c['resfun']))
    if (err != '') != (c['verdict'] == 'refuse'):
        return f'{c["verdict"]} expected, got {err or "an optimizer"}'
    if err and err != 'ValueError':
        return f'ValueError expected, got {err}'
    return 'objective was called' if calls else ''


RES = ('FX', 'SSM', 'TSSM', 'GNSBFGS')
HESS = ('exact', 'HybridFixed', 'HybridFraction')
M = 4        # residuals


def outputs(name, n):
    if name in RES:
        J = np.arange(M * n).reshape(M, n) % 3 + np.eye(M, n) * 2.
        return lambda x: (J @ x - np.arange(1., M + 1), J.copy())
    q = lambda x: (float(x @ x), 2 * x, 2 * np.eye(n))  # noqa: E731
    return q if name in HESS else (lambda x: q(x)[:2])


def wrong(what, shape, n):
    z = {
        'f': {'vec1': np.ones(1), 'mat1': np.ones((1, 1)), 'arr0': np.ones((n,)), 'list': [1.]},
        'g': {'scalar': 1., 'col': np.ones((n, 1)), 'row': np.ones((1, n)), 'long': np.ones(n + 1), 'one': np.ones(1),
              'mat': np.ones((n, n)), 'arr0': np.array(1.), 'empty': np.ones(0)},
        'H': {'scalar': 1., 'vec': np.ones(n), 'wide': np.ones((n, n + 1)), 'tall': np.ones((n + 1, n)),
              'big': np.eye(n + 1), 'one': np.eye(1), 'cube': np.ones((n, n, n)), 'arr0': np.array(1.),
              'flat': np.ones(n * n), 'empty': np.ones((0, 0))},
        'res': {'col': np.ones((M, 1)), 'row': np.ones((1, M)), 'short': np.ones(M - 1), 'mat': np.ones((M, M))},
        'sres': {'vec': np.ones(M), 'narrow': np.ones((M, n - 1)), 'fewrows': np.ones((M - 1, n)),
                 'morecols': np.ones((M, n + 1)), 'cube': np.ones((M, n, 1)), 'arr0': np.array(1.),
                 'transposed': np.ones((n, M))}}
    return z[what][shape]


def objective(c, fun, n):
    calls = []

    def f(x):
        calls.append(np.array(x))
        return fun(x)
    # default: the step must not leave the starting point when refused
    o = fides.Optimizer(f, np.full(n, 3.), np.full(n, -3.), verbose=rec.SILENT, options={'maxiter': 3},
                        hessian_update=scheme(c['scheme']), resfun=c['scheme'] in RES)
    with np.errstate(all='ignore'):
        _, err = attempt(lambda: o.minimize(np.ones(n)))
    if (err != '') != (c['verdict'] == 'refuse'):
        return f'{c["verdict"]} expected, got {err or "a result"}'
    if err and len(calls) != 1:
        return f'refused after {len(calls)} evaluations'
    if err and err != 'ValueError':
        return f'ValueError expected, got {err}'
    return ''


def shape(c):
    base = outputs(c['scheme'], c['n'])
    names = ('res', 'sres') if c['scheme'] in RES else ('f', 'g', 'H')

    def fun(x):
        out = list(base(x))
        if c['shape'] != 'ok':
            out[c['out'] - 1] = wrong(names[c['out'] - 1], c['shape'], c['n'])
        return tuple(out)
    return objective(c, fun, c['n'])


def count(c):
    base = outputs(c['scheme'], 2)

    def fun(x):
        out = (list(base(x)) + [1., 1., 1., 1.])[:c['count']]
        return tuple(out) if c['type'] == 'tuple' else out if c['type'] == 'list' else \
            (out[0] if out else None)
    return objective(c, fun, 2)


def default(c):
    o = {'none': None, 'empty': {}, 'others': {'gatol': 1e-3} if c['opt'] != 'gatol' else {'xtol': 1e-3}}[c['with']]
    opt, err = attempt(lambda: make(o))
    if err:
        return f'refused: {err}'
    if not hasattr(opt, 'get_option'):
        return ''
    got = opt.get_option(Options(c['opt']))
    want = c['want']
    if want == 'none':
        return '' if got is None else f'default is {got!r}'
    if c['opt'] in MEMBER:
        return '' if got == want else f'default is {got!r}, documented {want}'
    return '' if float(got) == float(want) else f'default is {got!r}, documented {want}'


# effect: the same run as with the canonical form, and another one than without
def scenario_runs(options):
    res = []
    for k, (fun, lb, ub, x0) in enumerate(SCEN):
        xs = []

        def f(x):
            xs.append(vec(x))
            clock.t += 1.0
            return fun(np.array(x))
        opts = dict({'maxiter': 14} if not any(str(getattr(a, 'value', a)) == 'maxiter' for a in options) else {},
                    **options)
        opt = fides.Optimizer(f, ub.copy(), lb.copy(), verbose=rec.SILENT, options=opts)
        with rec.Clock() as clock, np.errstate(all='ignore'):
            r = opt.minimize(x0.copy())
        res.append([xs, num(r[0]), vec(r[1]), vec(r[2]), mat(r[3]), int(opt.exitflag)])
    return ss.dig(res)


SCEN = [(ss.dented(3, 1), np.array([-4., -4, -4]), np.array([4, 9, 2.]), np.array([2., 1, -3])),
        (scen.smooth('rosen', None, 2), np.array([-2., -2]), np.array([2, 1.5]), np.array([-1.2, 1])),
        (scen.smooth('exp', np.random.default_rng(4), 3), np.array([-1., -2, -1]), np.array([1., 1, 1]),
         np.array([.5, -.5, .5])),
        (scen.smooth('trig', np.random.default_rng(8), 4), np.full(4, -np.inf), np.full(4, np.inf), np.ones(4))]


def boxed(seed, kind):
    rng = np.random.default_rng(seed)
    n = 3 + seed % 2
    fun = scen.smooth(kind, rng, n)
    lo, hi = -rng.uniform(.2, 1.5, n), rng.uniform(.2, 1.5, n)
    return fun, lo, hi, lo + (hi - lo) * rng.uniform(.1, .9, n)


SCEN += [boxed(11, 'indef'), boxed(13, 'quad'), boxed(27, 'rosen')]
# a value at which nothing is observable: with mu = .25 a step of the length of
# the radius is followed by one fourth of it for every gamma1 above that
QUIET = {('gamma1', 1.0)}
CACHE = {}


def canonical(opt, val):
    if opt in MEMBER:
        return (SubSpaceDim if opt == 'subspace_solver' else StepBackStrategy)(str(getattr(val, 'value', val)))
    return int(val) if opt == 'maxiter' else float(val)


def cached(opt, val):
    k = (opt, str(val))
    if k not in CACHE:
        CACHE[k] = scenario_runs({} if opt is None else {opt: val})
    return CACHE[k]


def effect(c):
    v = value(c['opt'], c['val'])
    a, err = attempt(lambda: scenario_runs({key(c['opt'], c['form']): v}))
    if err:
        return f'run ended with {err}'
    can = canonical(c['opt'], v)
    if a != cached(c['opt'], can):
        return f'{c["opt"]}={v!r} does not act like {can!r}'
    if can != DEFAULT[c['opt']] and (c['opt'], can) not in QUIET and a == cached(None, None):
        return f'{c["opt"]}={v!r} has no effect'
    if can == DEFAULT[c['opt']] and a != cached(None, None):
        return f'{c["opt"]}={v!r} differs from the default'
    return ''


DEFAULT = {'subspace_solver': SubSpaceDim.TWO, 'stepback_strategy': StepBackStrategy.REFLECT, 'mu': .25, 'eta': .75,
           'gamma1': .25, 'gamma2': 2., 'theta_max': .95, 'delta_init': 1., 'maxiter': 1000, 'maxtime': np.inf,
           'fatol': 1e-8, 'frtol': 1e-8, 'gatol': 1e-6, 'grtol': 0., 'xtol': 0.}
ROW = {'create': create, 'combine': combine, 'mode': mode, 'shape': shape, 'outputs': count,
       'default': default, 'effect': effect}


class Hang(BaseException):
    pass


def execute(c):
    limit = Deadline(30, Hang)
    limit.__enter__()
    try:
        return ROW[c['kind']](c)
    except Hang:
        return 'did not terminate'
    finally:
        limit.__exit__()


def run(rep):
    r = tlc('Config', 'SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT NoConflict\nINVARIANT DefaultsValid\n'
            'CHECK_DEADLOCK FALSE\n', timeout=3000)
    need(r, 'Config')
    rep.add_tlc(r)
    rows = r.out
    rows.sort(key=lambda c: (c['kind'], str(c)))
    if not THOROUGH:
        rng = np.random.default_rng([SEED, 17])
        pick = set(rng.permutation(len(rows))[:16000].tolist())
        rows = [c for k, c in enumerate(rows) if c['kind'] != 'create' or len(c['set']) == 1 or k in pick]
    kinds = {}
    for c in rows:
        kinds[c['kind']] = kinds.get(c['kind'], 0) + 1
    rep.extra['rows'] = kinds
    res = pmap(execute, rows, chunk=16)
    rep.traces += len(rows)
    rep.sample(rows[0])
    rep.sample(rows[-1])
    for c, msg in zip(rows, res):
        if msg:
            rep.fail('C17.' + c['kind'], {'row': c, 'mismatch': msg}, {'row': c, 'mismatch': msg})
