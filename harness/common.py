"""Shared plumbing: numbers, TLC runs, evidence files, violation reports."""
import atexit
import contextlib
import glob
import json
import math
import os
import signal
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FIDES_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NPROC = min(8, os.cpu_count() or 1)


def num(x):
    """A float as the string that R60 understands."""
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    if x == 0:
        return '0'
    return repr(x)


def vec(v):
    return [num(a) for a in v]


def mat(m):
    return [[num(a) for a in r] for r in m]


def build():
    """Compile the TLC module override (cached by source time)."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(SPEC, 'R60.java')
    cls = os.path.join(BUILD, 'R60.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    tmp = os.path.join(BUILD, f'tmp{os.getpid()}')
    os.makedirs(tmp, exist_ok=True)
    subprocess.run(
        ['javac', '-nowarn', '-cp', CP, '-d', tmp, src],
        check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    for f in glob.glob(tmp + '/*.class'):
        os.replace(f, os.path.join(BUILD, os.path.basename(f)))
    shutil.rmtree(tmp)


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', text)
        ms = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', text)
        self.generated = int(ms[-1][0].replace(',', '')) if ms else 0
        self.distinct = int(ms[-1][1].replace(',', '')) if ms else 0
        self.ok = 'No error has been found' in text
        self.violated = re.findall(
            r'(?:Invariant|Action property|Temporal properties|property) (\S+) (?:is|was|were) violated', text)
        self.out = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                s = line[3:-1]
                self.out.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))


def tlc(module, cfg, env=None, workers=NPROC, deadlock=False, timeout=800,
        extra=(), mem='6g', workdir=None, coverage=False, retry=True):
    """Run TLC on spec/<module>.tla with the given cfg text.

    TLC sorts the fields of a record in place when it is first compared, so a
    worker can see a constant record half sorted ("nonexistent field"). With
    retry, a run that fails is therefore repeated with one worker and only
    that run counts.
    """
    if retry and workers != 1:
        kw = dict(deadlock=deadlock, timeout=timeout, extra=extra, mem=mem,
                  coverage=coverage, retry=False)
        r = tlc(module, cfg, env, workers, workdir=workdir, **kw)
        if not r.ok:
            sys.stderr.write(f'{module}: repeated with one worker\n')
            r = tlc(module, cfg, env, 1, **kw)
        return r
    build()
    wd = workdir or os.path.join(OUT, f'tlc_{os.getpid()}_{module}_{time.time_ns()}')
    os.makedirs(wd, exist_ok=True)
    cfgf = os.path.join(wd, module + '.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    # one scratch directory for TLC's own files
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss16m',
           f'-Djava.io.tmpdir={wd}', '-DTLA-Library=' + SPEC,
           '-cp', f'{BUILD}:{CP}', 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(wd, 'states'), '-noGenerateSpecTE',
           '-config', cfgf]
    if not deadlock:
        cmd.append('-deadlock')
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    p = subprocess.run(cmd, env=e, cwd=wd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    text = p.stdout.decode('utf8', 'replace')
    r = TLCResult(text, p.returncode, time.time() - t0)
    if workdir is None:
        shutil.rmtree(wd, ignore_errors=True)
    return r


def need(r, what):
    if not r.ok:
        lines = [x for x in r.text.splitlines() if not
                 x.startswith(('"@@', 'Parsing', 'Semantic', 'Linting', 'Loading'))]
        sys.stderr.write('\n'.join(lines)[:6000] + '\n')
        raise TLCError(f'TLC failed on {what} (rc {r.rc})')
    return r


def selftest():
    """The arithmetic behind every specification."""
    need(tlc('R60Test', 'SPECIFICATION Spec\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n'), 'R60Test')


TLC_EVAL = (75, 76, 77)   # exit codes of evaluation errors
CASES_CFG = 'SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n'


def workdir(rep):
    """Scratch directory of this process for one property."""
    d = os.path.join(OUT, f'{rep.prop}.{os.getpid()}')
    if not os.path.isdir(d):
        os.makedirs(d)
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


class Deadline:
    """Raises exc in the main thread after some seconds of processor time.

    Processor time, so that a loaded machine does not look like a hang; a
    run that waits without computing is ended after a longer time.
    """

    def __init__(self, seconds, exc):
        self.seconds, self.exc, self.old = seconds, exc, []

    def __enter__(self):
        def handler(*_):
            raise self.exc()
        self.old = [(s, signal.signal(s, handler)) for s in (signal.SIGPROF, signal.SIGALRM)]
        signal.setitimer(signal.ITIMER_PROF, self.seconds)
        signal.setitimer(signal.ITIMER_REAL, 200)
        return self

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for s, old in self.old:
            signal.signal(s, old)


def tlc_cases(rep, module, var, items, name, env=None):
    """Judges recorded items with a trace module.

    Returns the reported records (their t counted from 1 in items) and the
    items that are no behaviours of the specification at all: values so far
    off its types that TLC cannot evaluate it on them.
    """
    d = workdir(rep)
    path = os.path.join(d, f'{name}.json')
    out, bad = [], []

    def judge(part, workers):
        with open(path, 'w') as f:
            json.dump(part, f)
        return tlc(module, CASES_CFG, env=dict(env or {}, **{var: path}),
                   timeout=3000, workers=workers, retry=False)

    def go(lo, hi):
        r = judge(items[lo:hi], NPROC)
        if not r.ok and hi - lo == 1:
            r = judge(items[lo:hi], 1)
        if r.ok:
            rep.add_tlc(r)
            for o in r.out:
                o['t'] += lo
                out.append(o)
        elif hi - lo == 1:
            if r.rc not in TLC_EVAL:
                need(r, name)
            bad.append(lo)
        elif len(bad) < 3:
            # isolate the item that cannot be evaluated
            mid = (lo + hi) // 2
            go(lo, mid)
            go(mid, hi)

    def confirm(out):
        # a report counts when one worker repeats it (see tlc)
        some = sorted({o['t'] for o in out})
        if len(some) > 200:
            return out
        r = judge([items[t - 1] for t in some], 1)
        if not r.ok:
            return out
        again = []
        for o in r.out:
            o['t'] = some[o['t'] - 1]
            again.append(o)
        return again
    if items:
        go(0, len(items))
        if out:
            out = confirm(out)
        os.remove(path)
    rep.traces += len(items)
    return out, bad


class Report:
    """Collects what one check covered and what failed."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.fails = []       # (clause, detail, replay dict)
        self.clauses = {}     # clause -> times evaluated non-vacuously

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def fail(self, clause, detail, replay):
        self.fails.append((clause, detail, replay))

    def finish(self, assumptions=()):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        known = load_known()
        new, old = [], []
        for clause, detail, replay in self.fails:
            key = known_key(known, self.prop, clause, replay)
            (old if key else new).append((clause, detail, replay, key))
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples or ['(none)'],
        }
        cov.update(self.extra)
        ev = {
            'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
            'seed': SEED, 'level': 'model_checking', 'coverage': cov,
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for key in sorted({k for *_, k in old}):
            print(f'KNOWN-FINDING: property={self.prop} {key}')
        if not new:
            print(f'OK property={self.prop} traces={self.traces} '
                  f'states={self.states} wall={ev["wall_s"]}s')
            return 0
        d = os.path.join(OUT, self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'violation.json')
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'tier': TIER, 'seed': SEED,
                       'violations': [
                           {'clause': c, 'detail': dt, 'replay': rp}
                           for c, dt, rp, _ in new[:20]],
                       'total': len(new)}, f, indent=1, default=str)
        seen = {}
        for c, dt, _, _ in new:
            seen.setdefault(c, [0, dt])[0] += 1
        for c, (k, dt) in list(seen.items())[:12]:
            print(f'  {c} x{k}: {str(dt)[:300]}')
        print(f'VIOLATION property={self.prop} replay={path}')
        return 1


def load_known():
    """finding: property=<id> clause=<clause> match=<substring> <text>"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) clause=(\S+) match=(\S+) (.*)', line)
            if m:
                res.append(m.groups())
    return res


def known_key(known, prop, clause, replay):
    for p, c, sub, text in known:
        if p == prop and c == clause and sub in json.dumps(replay, default=str):
            return text.strip()
    return None


def setup_repo():
    """Make /repo's working tree importable without leaving files there."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def pmap(fn, items, nproc=NPROC, chunk=4):
    """Parallel map over a fork pool (the workers import fides themselves)."""
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1 or nproc == 1:
        return [fn(i) for i in items]
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc) as pool:
        return pool.map(fn, items, chunksize=chunk)
