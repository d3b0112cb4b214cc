#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif to regenerate it)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
M='fides/minimize.py'; T='fides/trust_region.py'; S='fides/steps.py'; B='fides/stepback.py'; Q='fides/subproblem.py'; H='fides/hessian_approximation.py'; C='fides/constants.py'; L='fides/logging.py'

p('C01','The objective is only ever evaluated inside the bounds',
 'Every point at which the objective is evaluated, every iterate, and the points the optimizer reports as final and as best lie within the lower and upper bounds (exactly, not up to rounding). The starting point is only moved if it touches a bound, by a negligible amount into the interior, and so is an accepted point; a starting point outside the bounds (by more than that negligible amount) or with NaN entries is refused with an error and the boundary exit flag before the objective is called. A run from a feasible starting point never aborts with a bounds error.',
 ['inputs','histories','configurations'],'all objectives, boxes (one-sided, fixed or unbounded variables included), starting points, solvers, step-back strategies, Hessian schemes, and all histories of accepted and rejected steps',
 'Tests never look at the points the objective receives; the two boxes they use cannot show rounding at a bound after several reflections.',
 [M,S,T],[('clipping of the trial point, check_in_bounds, make_non_degenerate',M),('step_back and breakpoint computation',S)],
 [('x','current iterate','Optimizer.x'),('lb, ub','bounds','Optimizer.lb/.ub')],['argument of the objective','Optimizer.x, x_min','return value of minimize'])
p('C02','The best point seen is never lost',
 'At any time during and after a run, the reported best function value is the smallest finite value among all evaluations of this run, whether or not the corresponding step was accepted, and the reported best point and best gradient belong to an evaluation that attained it (the evaluation with which a run ends by an error excepted). The final function value is never below the reported best one.',
 ['inputs','histories'],'all sequences of objective values (finite, NaN, infinite, ties), including rejected steps that improve on the best value, over single and repeated runs',
 'Tests only assert fval >= fval_min and compare gradients if equal; no test has a rejected evaluation that is better than the iterate.',
 [M],[('track_minimum called for every evaluation',M),('reset of the tracked minimum per run',M)],
 [('x_min, fval_min, grad_min','best evaluation so far','Optimizer')],['Optimizer.x_min/fval_min/grad_min'])
p('C03','The iterate only moves by accepted, strictly improving steps',
 'After each trial evaluation the iterate either stays completely unchanged or becomes that trial, and it moves if and only if the ratio of actual (bound-augmented) to predicted decrease is positive; accepted function values therefore strictly decrease. Iterate, function value, gradient and (exact) Hessian always stem from one and the same evaluation, and the values returned at the end are those of the final iterate.',
 ['inputs','histories','configurations'],'all objective behaviours (also inconsistent, non-convex, noisy) and all accept/reject histories under every solver, strategy and Hessian scheme',
 'Tests only look at the end of well-behaved runs on two functions; mixing up fields after a reject/accept pattern is invisible there.',
 [M],[('update_tr_radius returning the acceptance flag',M),('update applied only to accepted steps',M)],
 [('x, fval, grad, hess','current iterate','Optimizer'),('tr_ratio','actual/predicted decrease','Optimizer')],['Optimizer state at each objective call','return value of minimize'])
p('C04','Trust-region radius follows the documented update rule',
 'A run starts with the configured initial radius; after each trial the radius is multiplied by the growth factor exactly if the ratio of actual to predicted decrease reaches the increase threshold and the step used at least 90% of the radius, becomes the smaller of the radius times the shrink factor and a quarter of the step length if the ratio does not exceed the acceptance threshold or the trial value is not finite, and otherwise stays the same. The ratio relates the actual decrease, corrected for the bound term, to the decrease predicted by the quadratic model of the scaled problem, and is zero if no decrease was predicted. No trial step is longer than the radius in scaled coordinates.',
 ['inputs','histories','configurations'],'all sequences of trial outcomes and all settings of mu, eta, gamma1, gamma2 and the initial radius, bounded and unbounded',
 'No test inspects the radius or ratio; only default thresholds are ever used.',
 [M,T],[('update_tr_radius',M),('get_affine_scaling',M),('radius constraint in the subproblem solvers',Q)],
 [('delta','current radius','Optimizer.delta'),('tr_ratio','ratio','Optimizer.tr_ratio')],['Optimizer.delta, tr_ratio at each objective call'])
p('C05','Exit flag states the true reason and the run stops promptly',
 'When a run returns, its exit flag names a criterion that holds at that moment: function-value change below tolerance on an accepted step of sufficient quality, scaled step length below tolerance (after the first iteration), gradient norm at the retained point below the absolute or relative tolerance, iteration limit reached, time budget exhausted, or radius below machine precision. No earlier iteration satisfied any enabled criterion, positive flags are reported exactly if the run converged, and each run reports its own flag, also after runs that raised.',
 ['inputs','histories','configurations'],'all combinations of tolerances and limits and all trial histories, in particular rejected or failing trials right before termination',
 'One test checks the two limit flags on one function; tests never check which convergence flag is set or that it is justified.',
 [M,C],[('check_convergence',M),('check_continue',M),('exit flag reset',M)],
 [('exitflag, converged','termination state','Optimizer')],['Optimizer.exitflag, converged after minimize'])
p('C06','Non-finite objective outputs are contained',
 'A trial with a non-finite function value (NaN or either infinity) is rejected, shrinks the radius and leaves the iterate, the best point and the Hessian approximation untouched, and the run goes on. A non-finite value at the starting point, or a finite trial value with a non-finite gradient or Hessian entry, ends the run with an error and the not-finite exit flag. Iterate, best point and radius never become non-finite, and the objective is never called at a non-finite point.',
 ['inputs','fault_sequences','histories'],'every placement of failures of every kind (value, gradient, Hessian; NaN, +inf, -inf) over the evaluations of a run',
 'One test injects NaNs at random and only expects some error eventually; recovery after failures is not tested.',
 [M],[('check_finite',M),('non-finite branch of update_tr_radius',M)],
 [('fval, grad, hess','latest accepted values','Optimizer')],['objective arguments','Optimizer state','exceptions raised by minimize'])
p('C07','Evaluation, iteration and time budgets are respected',
 'The objective is evaluated exactly once at the start and exactly once per iteration, and never more often than the iteration limit plus one. No iteration is started once the remaining time is less than the average time per iteration so far (or the limit is reached), the run then ends with the time (iteration) flag, and a budget that is not exhausted never ends a run. Every run terminates.',
 ['inputs','histories','configurations'],'all limits (including zero), durations of individual evaluations and trial histories',
 'One test checks flags for one limit each; evaluation counts and the expected-overrun rule are untested since they need control of the clock.',
 [M],[('check_continue',M),('single evaluation per loop pass',M)],
 [('iteration','iterations performed','Optimizer.iteration'),('starttime','start of this run','Optimizer.starttime')],['number and times of objective calls','Optimizer.iteration, exitflag'])
p('C08','Runs are isolated from each other',
 'A run depends only on its inputs: repeating it on a used optimizer (after runs that converged, hit limits or raised, with stateful Hessian schemes), on a new one, with another verbosity or with history tracking, or interleaved with other optimizers, gives the same sequence of evaluations and the same results. Runs never modify the caller\'s bounds, starting point, initial Hessian or options, and results returned by earlier runs do not change later.',
 ['histories','schedules','inputs','configurations'],'all sequences of runs on shared optimizers and all interleavings of several optimizers at objective calls',
 'Tests reuse optimizers but never compare a rerun against a fresh run.',
 [M,H,'fides/logging.py'],[('_reset',M),('_init_mat',H),('copies of x0, hess0, hess',M)],
 [('all run state','reset at the start of each run','Optimizer._reset')],['sequence of objective calls','returned arrays','caller-owned arrays'])
p('C09','The n-dimensional trust-region subproblem is solved globally',
 'For every symmetric matrix, gradient and radius, the returned step has at most the length of the radius (up to relative rounding) and no point of that length has a noticeably lower quadratic model value; it satisfies (B + lambda I)s = -g with lambda >= 0, B + lambda I positive semidefinite and lambda(radius - |s|) = 0. This includes indefinite, singular and ill-scaled matrices, repeated eigenvalues, and gradients (nearly) orthogonal to the lowest eigenvector.',
 ['inputs'],'all symmetric B, all g, all radii (well-scaled within about 12 orders of magnitude)',
 'Tests use one diagonal 3x3 matrix; rotated, degenerate and near-hard cases are not tested and optimality is only checked locally.',
 [Q],[('solve_nd_trust_region_subproblem with root finding and hard case',Q)],[],['return value of solve_nd_trust_region_subproblem'])
p('C10','The one-dimensional subproblem is solved globally',
 'For every symmetric matrix, gradient, nonzero direction, and reference point within the trust region, the returned step length is finite, keeps the sum of reference point and step within the radius, and minimizes the quadratic model among all step lengths that do so. For a zero direction or zero radius the step length is zero.',
 ['inputs'],'all B, g, directions, reference points (at the center, inside and on the boundary), radii and signs of curvature',
 'Tests check one matrix with reference points that are multiples of the direction.',
 [Q],[('solve_1d_trust_region_subproblem',Q),('get_1d_trust_region_boundary_solution',Q)],[],['return value of solve_1d_trust_region_subproblem'])
p('C11','Trial steps are feasible, model-consistent and the best candidate',
 'The proposed trial step is finite, stays within bounds (up to rounding) and trust region, its scaled and unscaled representations agree, and its predicted model value is exactly the value of the scaled quadratic model at the step that is actually taken and never positive. Among all candidates generated for the chosen strategy it has the lowest model value, and whenever bounds cut the trust-region step of a multi-dimensional problem it is at least as good as the stepped-back steepest-descent step. If the scaled gradient is nonzero, the predicted decrease is positive.',
 ['inputs','configurations'],'all points, gradients, symmetric Hessians, boxes, radii, subproblem solvers and step-back strategies',
 'Steps are only exercised inside runs on two functions whose end result hides wrong or inferior steps.',
 [T,S,B],[('candidate generation and argmin',T),('Step.calculate',S)],
 [('s, s0, ss, ss0, qpval','step and predicted value','Step')],['Step returned by trust_region'])
p('C12','Step-back follows the documented boundary strategies',
 'A step that would cross a bound is shortened to the configured fraction (or closer, near convergence) of the way to the first bound, so that without reflections no trial covers more than that fraction of the distance to any bound. Each reflected candidate starts exactly where its predecessor first hits a bound, reverses exactly the components that hit, and is optimal along that direction within trust region and fraction; each truncated candidate freezes exactly the components that hit at that fraction and re-solves the rest optimally. The chosen strategy determines which candidates are generated: one reflection, up to one reflection per variable, truncations until nothing is cut, both, or a refinement, which (in almost all cases) minimizes the model over the subspace of the step within radius and fraction.',
 ['inputs','configurations'],'all points, gradients, Hessians, boxes, radii, including simultaneous hits and repeated reflections in any dimension',
 'No test calls the step-back code directly; dimension two with one box exercises at most two reflections.',
 [S,B,T],[('step_back',S),('TRStepReflected, TRStepTruncated, RefinedStep',S),('stepback_reflect, stepback_truncate',B)],
 [('br, minbr, iminbr, alpha','breakpoints and step-back fraction','Step')],['Step objects from the step-back functions','trial points under truncation'])
p('C13','Quasi-Newton updates satisfy their defining equations',
 'For BFGS, DFP and the Broyden class every applied update satisfies the secant equation, keeps the matrix symmetric and, for mixing parameters in [0,1] with positive curvature, positive definite, and equals the convex combination of the BFGS and DFP formulas; updates violating the curvature condition leave the matrix unchanged if it is enforced. SR1 satisfies the secant equation and symmetry or, if degenerate, leaves the matrix unchanged, the good Broyden update is the least-change secant update, and the bad Broyden update skips nonpositive curvature. The reported difference is always the change that was applied, a fresh approximation is the identity or a copy of the given matrix, matrices of the wrong dimension are refused, and handed-out matrices are copies.',
 ['inputs','histories'],'all step/gradient-change pairs and all sequences of updates and resets for all schemes',
 'Unit tests only check that two calls do not raise.',
 [H],[('broyden_class_update',H),('SR1, BG, BB _compute_update',H)],
 [('_hess, _diff','approximation and last change','HessianApproximation.get_mat/get_diff')],['get_mat, get_diff'])
p('C14','Structured and hybrid schemes follow their published rules',
 'SSM, TSSM and GNSBFGS return the Gauss-Newton matrix plus their (residual-scaled) structured part, updated by the Broyden-class formula for their respective secant pair, with GNSBFGS switching to Gauss-Newton plus residual-norm identity at low curvature; FX takes the Gauss-Newton matrix while the relative decrease is at least its tolerance and the quasi-Newton update of the previous matrix otherwise. HybridFixed and HybridFraction return the exact matrix until their criterion (iterations without radius update; fraction of intermediate-ratio iterations after 25 iterations) was met, then irreversibly the quasi-Newton matrix that was updated from the start. Finite inputs never give a non-finite matrix, also for zero residuals.',
 ['inputs','histories'],'all sequences of updates (steps, gradients, residuals, counters) of all schemes and parameters',
 'Only end results of runs on one function are tested; which branch was taken and when it switched is not.',
 [H,M],[('SSM/TSSM/GNSBFGS/FX.update',H),('HybridFixed/HybridFraction.update',H)],
 [('A, _switched','structured part and switch state','approximation objects')],['get_mat, get_diff, get_structured_diff'])
p('C15','The Hessian in use reflects exactly the accepted steps',
 'With exact Hessians, every trial step is based on the Hessian returned for the current iterate; with an approximation scheme it is based on the initial matrix (identity, the given matrix, or the objective\'s Hessian on request) updated once for each accepted step with that step, its gradient change and, where applicable, the residual information of exactly the two evaluations involved, and never for rejected ones. The Hessian returned at the end is the one belonging to the final iterate.',
 ['inputs','histories','configurations'],'all accept/reject histories for all Hessian schemes and initializations',
 'Tests cannot see which step/gradient pair an update received; a wrong pair still converges on easy functions.',
 [M,H],[('Optimizer.update',M),('_init_mat via hess0',M)],
 [('hess','matrix used for the next step','Optimizer.hess')],['Optimizer.hess at each objective call','returned Hessian'])
p('C16','The history file is a faithful, append-only record',
 'If a history file is configured, each run that returns adds exactly one group, named by its start id, in which every recorded quantity has one entry per iteration that equals what actually happened in that iteration (trial value, ratio, radius, gradient and step norms, acceptance, step type and counts, Hessian eigenvalues). Groups of earlier runs, also by other optimizers or from a run with the same id, are never altered, and a run that raises leaves the file as it was.',
 ['histories','crash_points','inputs'],'all sequences of runs, start ids, failing runs (at any evaluation) and Hessian schemes sharing one file',
 'The test only counts groups.',
 [M],[('track_history and final dump',M)],
 [('history','per-iteration records','Optimizer.history')],['HDF5 file contents'])
p('C17','Invalid configurations and objectives are refused up front',
 'Unknown option names, values of the wrong type and unknown choices are refused with an error when the optimizer is created, no matter whether options are addressed by name or by enum member, valid ones (numeric widening, names of choices) are accepted and take effect, and omitted ones take the documented default. Incompatible solver/strategy and scheme/residual-mode combinations are refused on creation, and objectives that return the wrong number of outputs or outputs of wrong shape are refused with a value error at the first evaluation, before any step is taken.',
 ['configurations','inputs'],'all option keys and value kinds, all combinations of schemes and objective signatures, all output shapes',
 'Tests try five option dictionaries and six shapes out of the product space.',
 [C,M],[('validate_options',C),('FunEvaluator, Funout.checkdims, Optimizer.__init__',M)],
 [('options','validated options','Optimizer.options')],['exceptions of Optimizer() and minimize()'])
p('C18','Convex bound-constrained quadratics are solved',
 'On strictly convex, reasonably scaled quadratic problems with bounds, a run from any interior point with default tolerances ends without error at the unique constrained minimizer: the final function value agrees with the constrained optimum up to the tolerances, for every subproblem solver, step-back strategy and the exact, BFGS, DFP and SR1 Hessians, in moderately many iterations. Residual-based schemes do so on linear least-squares problems.',
 ['inputs','configurations'],'all strictly convex quadratics of moderate condition, boxes with any active set, starting points, solvers, strategies and schemes',
 'Tests use two functions and check solutions only when no bound is active.',
 [M,T,S,B,Q,H],[('the optimizer as a whole','fides')],[],['return value of minimize, number of evaluations'])
p('C19','Distance-to-bound scaling follows Coleman and Li',
 'In every iteration each variable is scaled by the distance to the bound its descent direction points to (upper bound if the gradient entry is negative, lower bound otherwise) if that bound is finite, and not scaled otherwise; the derivative of the scaling is one exactly for the variables that are scaled. With all bounds infinite the problem is therefore not transformed at all, and mirroring a variable mirrors the whole run up to rounding (as long as no gradient entry is exactly zero).',
 ['inputs','configurations'],'all points, gradients (zero entries included) and one-sided, two-sided or infinite bounds',
 'Scaling is never inspected by tests; wrong scaling still converges on the test problems.',
 [M],[('get_affine_scaling',M)],[('v, dv','scaling vector and its derivative','get_affine_scaling')],['get_affine_scaling','trial points of mirrored runs'])
p('C20','The progress log tells what happened',
 'With verbosity INFO (or lower) a run prints, after a header, exactly one row for the starting point and exactly one for every completed iteration, in order and each only once - also on a reused optimizer and while other optimizers with other verbosities run - and the printed iteration number, function value retained, change of the trial value (zero for non-finite trials), ratio, radius used, gradient norm where the step was computed, step norm, step type and acceptance are the true ones up to the printed digits. A run that returns prints exactly one final message, which names the criterion of its exit flag and the number that met it; a run that raises prints none. With verbosity WARNING only the messages about exhausted limits are printed, above that nothing.',
 ['inputs','histories','configurations'],'all runs (outcomes, endings, schemes, strategies), verbosities, and sequences or nestings of runs',
 'No test reads the log.',
 [M,L],[('log_header, log_step_initial, log_step and the messages of check_convergence and check_continue',M),('create_logger',L)],
 [('log rows','printed rows of one run','Optimizer.log_step')],['lines written to stderr'])
p('C21','Each subspace solver computes the step it is documented to compute',
 'The trust-region step, before bounds are considered, is the one of the configured solver and never longer than the radius. FULL: the global minimizer of the scaled model within the radius. TWO: for a positive definite model the Newton step if it is inside the radius, otherwise the minimizer within the plane of Newton and steepest-descent direction; for a model with negative curvature the minimizer within the plane of the direction of most negative curvature and the scaled sign of the gradient, hence at least the decrease along that curvature. STEIHAUG: the conjugate gradient iterate at which the residual norm first falls below min(0.5, sqrt(|g|))|g|, or the best point at which the iteration leaves the region where it would cross the boundary or meets nonpositive curvature; never worse than steepest descent.',
 ['inputs','configurations'],'all gradients, symmetric Hessians (convex, singular, indefinite), scalings, radii and solvers, in direct calls and in the calls made by runs under the configured solver',
 'Tests only see that runs with each solver converge on two functions, which they also do with poorer steps.',
 [S,T],[('TRStepFull, TRStep2D: choice of subspace',S),('TRStepSteihaug.conj_grad',S),('selection of the solver by option',T)],
 [('subspace, og_ss','subspace and step before step-back','Step')],['Step objects created in trust_region','Step returned for unbounded problems'])
p('C22','Runs do not depend on the order of variables, their origin or the unit of the objective',
 'Permuting the variables together with their bounds permutes the sequence of evaluated points, shifting variables and bounds shifts it, and a constant added to a scalar objective leaves it unchanged (with a purely absolute function tolerance). With exact Hessians and the exact or two-dimensional subspace solver, multiplying the objective (and its tolerance) by a positive factor leaves it unchanged as long as the step-back fraction is at its configured value. This holds for all schemes, solvers and strategies without interior-point refinement, up to rounding, except for rare cases in which rounding decides between two bounds that are reached at the same fraction.',
 ['inputs','configurations','histories'],'all objectives, bounds (finite or infinite), starting points, schemes, solvers and strategies; first evaluations of a run',
 'Tests run each problem in one formulation only and do not compare runs.',
 [M,T,S,B],[('minimize',M),('trust_region',T),('Step.step_back',S),('stepback_reflect, stepback_truncate',B)],
 [('x','evaluated points of both runs','objective')],['evaluation of the objective'])
p('C23','Runs end at local minimizers of smooth problems',
 'On smooth, in general non-convex problems with bounds that grow without limit (polynomials of degree four, nonlinear least squares of quadratic residuals), a run from any interior point with default tolerances ends without error at a feasible point whose reported value is the true one, not above the starting value, and where first-order conditions hold (each gradient entry is small or the bound it points to is close). With exact Hessians and the hybrid schemes this holds for every run, in moderately many iterations, and no run with the exact or two-dimensional solver ends where the Hessian of the free variables has a negative eigenvalue; with BFGS, SR1, Broyden schemes and the structured residual schemes it holds in almost all runs, with DFP in most.',
 ['inputs','configurations'],'all coercive problems of this form, boxes, starting points, solvers, strategies and Hessian schemes',
 'Tests use one non-convex function (Rosenbrock) with few configurations and check its solution only when no bound is active.',
 [M,T,S,B,Q,H],[('the optimizer as a whole','fides')],[],['return value of minimize, number of evaluations'])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
