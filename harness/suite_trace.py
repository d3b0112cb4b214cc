"""Trace validation of recorded optimizer runs against FidesTrace.tla."""
import scen
from common import SEED, THOROUGH, pmap, tlc_cases

NONSYM = ['BG', 'BB']


def mix(prop, scale=1.0):
    """The scenarios explored for one property."""
    base = int(prop[1:]) * 1_000_000 + (SEED - 1) * 50_000_000
    if THOROUGH:
        scale *= 14
    out = []

    def add(k, family, **kw):
        over = {a: kw.pop(a) for a in list(kw) if a not in
                ('scheme', 'nmax', 'solver', 'strat')}
        for _ in range(int(k * scale)):
            seed = base + len(out)
            kk = {a: (b[seed % len(b)] if isinstance(b, (list, tuple)) else b)
                  for a, b in kw.items()}
            sc = scen.scenario(seed, family, **kk)
            for a, b in over.items():
                sc[a] = b[(seed // 3) % len(b)] if isinstance(b, (list, tuple)) else b
            out.append(sc)

    if prop != 'C16':
        add(260, 'script')
        add(140, 'smooth')
        add(40, 'smooth', fscale=[1e-18, 1e-9, 1e9, 1e-18, 1e18])
    if prop == 'C01':
        add(16, 'smooth', x0=['nan', 'inf', '-inf'], bounds=['none', 'box', 'pos', 'mix'])
        add(200, 'smooth', bounds=['tight', 'box', 'shift', 'pos'], nmax=6,
            strat=['reflect', 'mixed', 'reflect_single', 'truncate'], scheme='exact')
        add(150, 'script', bounds=['tight', 'box', 'mix'], nmax=5,
            strat=['reflect', 'mixed', 'truncate'], scheme=['exact', 'SR1'])
        add(60, 'smooth', x0=['bound', 'int', 'list', 'corner'], bounds=['box', 'pos', 'shift'])
        add(40, 'smooth', x0=['outside', 'outside1'], bounds=['box', 'pos', 'mix'])
        add(40, 'smooth', bounds=['box', 'shift'], ints=['lb', 'lblist', 'grad'])
    elif prop in ('C02', 'C03', 'C04'):
        add(100, 'smooth', fscale=[1e-18, 1e-12, 1e6, 1e-16], scheme=['exact', 'BFGS', 'SR1'])
        add(300, 'script', scheme='exact', nmax=5)
        add(100, 'script', scheme=['BFGS', 'SR1', 'SSM', 'HybridFixed'])
    elif prop == 'C05':
        add(250, 'script', scheme=['exact', 'BFGS'], tols=1)
        add(250, 'smooth', tols=1)
    elif prop == 'C06':
        add(350, 'script', nonfin=1)
        add(24, 'smooth', x0=['nan', 'inf', '-inf'], bounds=['none', 'box', 'pos', 'mix'])
        add(60, 'script', nonfin=1, scheme=scen.RES)
    elif prop == 'C07':
        add(200, 'script', time=1)
        add(100, 'smooth', time=1)
        add(80, 'smooth', opts=[{'maxiter': k} for k in (1, 2, 3, 5)])
    elif prop == 'C11' or prop == 'C12':
        add(300, 'script', scheme='exact', bounds=['box', 'tight', 'mix', 'pos'], nmax=5)
        add(120, 'smooth', scheme=['exact', 'BFGS', 'SR1'], bounds=['box', 'tight', 'mix'], nmax=5)
    elif prop == 'C09':
        add(500, 'script', scheme=['exact', 'exact', 'BFGS', 'SR1'], bounds='none', nmax=6, solver='full')
        add(250, 'smooth', scheme=['exact', 'BFGS', 'SR1', 'HybridFixed'], bounds='none', nmax=6, solver='full')
    elif prop == 'C13':
        add(350, 'script', scheme=scen.ITER)
        add(250, 'smooth', scheme=scen.ITER)
        add(80, 'smooth', scheme=scen.ITER, ints='hess0')
    elif prop == 'C14':
        add(300, 'script', scheme=scen.HYB + scen.RES)
        add(300, 'smooth', scheme=scen.HYB + scen.RES)
        add(80, 'script', scheme='HybridFraction', opts=[{'maxiter': 60, 'gatol': 0.0, 'fatol': 0., 'frtol': 0.}], quietclasses=1)
    elif prop == 'C15':
        add(250, 'script', scheme=['exact'] + scen.ITER + scen.HYB + scen.RES)
        add(250, 'smooth', scheme=scen.ITER + scen.HYB + scen.RES)
        add(60, 'smooth', scheme=scen.ITER + ['FX'], ints='hess0')
    elif prop == 'C16':
        add(330, 'script', hist=1)
        add(300, 'smooth', hist=1)
        add(150, 'script', hist=1, scheme=scen.RES + scen.HYB)
        add(40, 'script', hist=1, nonfin=1)
        add(40, 'smooth', hist=1, opts=[{'maxiter': k} for k in (1, 2, 3)])
        add(20, 'smooth', hist=1, x0=['outside', 'bound'], bounds=['box', 'pos', 'mix'])
    elif prop == 'C20':
        out.clear()
        add(300, 'script', log=[10, 20, 20, 20, 30, 40])
        add(250, 'smooth', log=[10, 20, 20, 20, 30, 50])
        add(60, 'script', log=20, nonfin=1)
        add(120, 'smooth', log=20, tols=1)
        add(60, 'smooth', log=[20, 20, 30], time=1)
        add(40, 'smooth', log=[20, 30], opts=[{'maxiter': k} for k in (1, 2, 3, 1000)])
        add(30, 'smooth', log=20, fscale=[1e-18, 1e9, 1e18])
        add(12, 'smooth', log=[20, 30], x0=['nan', 'inf', 'outside', 'corner'], bounds=['box', 'pos', 'mix'])
    elif prop == 'C19':
        add(120, 'smooth', bounds=['box', 'shift', 'tight'], ints=['lb', 'lblist', 'grad', 'grad'])
        add(50, 'smooth', bounds=['pos', 'mix'], ints='grad', scheme='exact')
        add(250, 'script', bounds=['box', 'mix', 'pos', 'none'], nmax=5, scheme='exact')
        add(100, 'smooth', bounds=['mix', 'pos'], nmax=5)
    return out


def relevant(prop, clause):
    return clause == 'crash' or clause.startswith(prop)


def judge(rep, traces, name, relevant=relevant):
    """Feeds recorded runs to TLC and collects the failing clauses."""
    for k in range(0, len(traces), 3000):
        part = traces[k:k + 3000]
        out, odd = tlc_cases(rep, 'FidesTrace', 'TRACES', part, f'{name}{k}')
        rep.count('events_judged', sum(len(t['ev']) for t in part))
        for o in out:
            tr = part[o['t'] - 1]
            for c in o['f']:
                if relevant(rep.prop, c):
                    rep.fail(c, {'event': o['l'], 'end': tr['end'].get('exc'),
                                 'msg': tr['end'].get('msg'), 'scenario': tr['meta']},
                             {'scenario': tr['meta'], 'event': o['l'], 'trace': tr})
        for i in odd:
            rep.fail('type', {'scenario': part[i]['meta']}, {'trace': part[i]})
    for tr in traces:
        if tr['end']['kind'] == 'hang' and rep.prop in ('C07', 'C01', 'C11', 'C09'):
            rep.fail('C07.hang', {'scenario': tr['meta']}, {'scenario': tr['meta']})


def run(rep, scale=1.0):
    scs = mix(rep.prop, scale)
    traces = pmap(scen.run_scenario, scs)
    ends = {}
    for t in traces:
        key = f"{t['end']['kind']}:{t['end'].get('flag')}"
        ends[key] = ends.get(key, 0) + 1
    rep.extra['run_endings'] = ends
    for sc in scs[::max(1, len(scs) // 3)][:3]:
        rep.sample(sc)
    judge(rep, traces, 'runs')
