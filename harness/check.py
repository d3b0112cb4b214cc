"""check.py <property id>: runs every suite that decides the property."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from common import Report  # noqa: E402
import suite_config  # noqa: E402
import suite_convex  # noqa: E402
import suite_design  # noqa: E402
import suite_hess  # noqa: E402
import suite_hist  # noqa: E402
import suite_mirror  # noqa: E402
import suite_session  # noqa: E402
import suite_smooth  # noqa: E402
import suite_solver  # noqa: E402
import suite_step  # noqa: E402
import suite_sub  # noqa: E402
import suite_trace  # noqa: E402

TRACE = lambda rep: suite_trace.run(rep)  # noqa: E731

DESIGN = lambda rep: suite_design.run(rep, hist=rep.prop == 'C16')  # noqa: E731

SUITES = {
    'C01': [DESIGN, TRACE], 'C02': [DESIGN, TRACE, suite_session.run], 'C03': [DESIGN, TRACE], 'C04': [DESIGN, TRACE],
    'C05': [DESIGN, TRACE, suite_session.run], 'C06': [DESIGN, TRACE, suite_session.run], 'C07': [DESIGN, TRACE], 'C11': [suite_step.run, suite_step.run_model, DESIGN, TRACE],
    'C09': [suite_sub.run_nd, TRACE], 'C10': [suite_sub.run_1d, DESIGN],
    'C12': [suite_step.run, suite_step.run_refine, suite_step.run_model, DESIGN, TRACE], 'C13': [suite_hess.run, DESIGN, TRACE], 'C14': [suite_hess.run, DESIGN, TRACE], 'C15': [DESIGN, TRACE],
    'C08': [suite_session.run], 'C16': [suite_hist.run, suite_step.run, DESIGN, TRACE],
    'C17': [suite_config.run], 'C18': [suite_convex.run],
    'C19': [suite_mirror.run, DESIGN, TRACE], 'C20': [TRACE], 'C21': [suite_solver.run], 'C22': [suite_mirror.run],
    'C23': [suite_smooth.run],
}

TECH = {
    '*': 'TLA+ specification checked with TLC; recorded runs validated against it',
}
NOTE = {
    '*': 'Every event of every recorded run is judged by TLC against the TLA+ '
         'specification (60-digit arithmetic). Covers the executed scenarios; '
         'trusts TLC, the arithmetic override and the recorder.',
}

ASSUME = ['TLC evaluates the specification correctly; its R60 module override '
          '(60-digit decimal arithmetic) agrees with the TLA+ definitions',
          'only executed runs are judged']


def main():
    prop = sys.argv[1]
    rep = Report(prop)
    broken = []
    for suite in SUITES[prop]:
        try:
            suite(rep)
        except Exception:
            # the other suites may still find a violation
            broken.append(traceback.format_exc())
    for text in broken:
        sys.stderr.write(text)
    if broken:
        rep.extra['broken_suites'] = len(broken)
    rc = rep.finish(ASSUME)
    if broken and rc == 0:
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
