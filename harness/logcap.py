"""Captures what the optimizer prints and reads the progress table from it."""
import io
import re
import sys

import numpy as np

LINE = re.compile(r'fides\((\w+)\) ?(.*)$')
NUM = r'[+-]?(?:\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|nan|inf)'
CRIT = [('FTOL', r'function difference'), ('XTOL', r'norm of step'), ('GTOL', r'gradient norm'),
        ('MAXITER', r'number of iterations'), ('MAXTIME', r'runtime'),
        ('DELTA_TOO_SMALL', r'trust region radius')]


def token(text):
    """A printed number: value, one unit in its last place."""
    t = text.strip().lower()
    if not re.fullmatch(NUM, t):
        return {'v': 'none', 'u': '0'}
    t = t.lstrip('+')
    if 'nan' in t or 'inf' in t:
        return {'v': t, 'u': '0'}
    mant, _, ex = t.partition('e')
    dec = len(mant.partition('.')[2])
    v = repr(float(t))
    return {'v': '0' if float(t) == 0 else v, 'u': f'1E{int(ex or 0) - dec}'}


def parse(line):
    m = LINE.search(line)
    level, msg = m.groups() if m else ('', line)
    d = {'level': level}
    if msg.lstrip().startswith('Stopping'):
        d['kind'] = 'end'
        d['crit'] = next((c for c, k in CRIT if re.search(k, msg)), 'none')
        n = re.search(r'(?<![\w.])' + NUM + r'(?![\w.]*\w)', msg)
        d['num'] = token(n.group(0) if n else '')
        return d
    f = msg.split('|')
    if len(f) == 9 and re.fullmatch(r'\s*\d+\s*', f[0]):
        d.update(kind='row', iter=int(f[0]), type=f[7].strip(), acc=f[8].strip())
        for k, t in zip(('f', 'df', 'ratio', 'delta', 'g', 's'), f[1:7]):
            d[k] = token(t)
        return d
    if 'iter' in msg and msg.count('|') >= 8:
        return dict(d, kind='header')
    return dict(d, kind='other') if m else None


STREAM = io.StringIO()


class Capture:
    """Stands in for sys.stderr while a run is recorded.

    All runs of a process print to the same stream, as they do for a user.
    """

    def __init__(self):
        self.s = STREAM
        self.s.seek(0)
        self.s.truncate()
        self.mark = 0

    def __enter__(self):
        self.old = sys.stderr
        sys.stderr = self.s
        return self

    def __exit__(self, *a):
        sys.stderr = self.old

    def skip(self):
        self.mark = len(self.s.getvalue())

    def take(self):
        t = self.s.getvalue()[self.mark:]
        self.skip()
        return [p for p in map(parse, t.splitlines()) if p]


def bystander(verbose):
    """Another optimizer that runs meanwhile."""
    import fides
    o = fides.Optimizer(lambda x: (float(x @ x), 2 * x, 2 * np.eye(2)), np.full(2, np.inf),
                        np.full(2, -np.inf), verbose=verbose, options={'maxiter': 3})
    o.minimize(np.array([1., 2.]))
