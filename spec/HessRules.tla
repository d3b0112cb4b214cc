------------------------------ MODULE HessRules ----------------------------
(* One update of a Hessian approximation scheme as a function of its state    *)
(* and its inputs.  State: h (matrix in use), inner (of the iterative scheme  *)
(* inside a hybrid one), A (structured part), sw (hybrid scheme has switched).*)
(* Inputs u: s, y, and depending on the scheme hess, r, rprev, yb, since,     *)
(* nonup, iters.                                                              *)
EXTENDS QN

Structured == {"SSM", "TSSM", "GNSBFGS"}
Hybrids == {"HybridFixed", "HybridFraction"}
InnerOf(sch) == IF "inner" \in DOMAIN sch THEN sch.inner ELSE sch
Phi(sch) == IF "phi" \in DOMAIN sch THEN sch.phi ELSE "0"

\* change of the part that is updated by a secant formula
SecantChange(sch, st, u) ==
  CASE sch.name \in IterativeNames -> IterUpd(sch, st.h, u.s, u.y, "0", "0")
    [] sch.name \in Hybrids -> IterUpd(InnerOf(sch), st.inner, u.s, u.y, "0", "0")
    [] sch.name = "FX" -> IterUpd(InnerOf(sch), st.h, u.s, u.y, "0", "0")
    [] sch.name = "GNSBFGS" -> BroydenUpd(st.A, u.s, u.yb, "0", sch.curv, "0", "0")
    [] OTHER ->
         LET w == IF sch.name = "TSSM" THEN VNorm(u.r) ELSE "1"
             hs == MV(u.hess, u.s)
             \* inputs of the formula carry rounding errors
             dy == RMul("8", RMul(EPS, RAdd(RMul(RMul(RInt(Len(u.s)), MMax(u.hess)), VNorm(u.s)),
                                            VNorm(u.yb))))
         IN BroydenUpd(MAdd(u.hess, MScl(w, st.A)), u.s, VAdd(hs, u.yb), Phi(sch), sch.curv,
                       "0", dy)
\* FX: relative decrease of the sum of squares
Decrease(u) == RDiv(RSub(VDot(u.rprev, u.rprev), VDot(u.r, u.r)), VDot(u.rprev, u.rprev))
\* GNSBFGS: curvature of the structured part along the step
Curvature(u) == RDiv(VDot(u.yb, u.s), VDot(u.s, u.s))
Switched(sch, st, u) ==
  st.sw \/ (sch.name = "HybridFixed" /\ u.since >= sch.switch_iteration)
        \/ (sch.name = "HybridFraction" /\ u.iters > 25
            /\ RLt(sch.switch_threshold, RDiv(RInt(u.nonup), RInt(u.iters))))
\* the decision of FX / GNSBFGS is not resolved by rounding
Decided(sch, u) ==
  CASE sch.name = "FX" -> REq(Decrease(u), RDbl(Decrease(u))) \/
                          ~RNear(Decrease(u), sch.hybrid_tol, "1E-12")
    [] sch.name = "GNSBFGS" -> ~RNear(Curvature(u), sch.hybrid_tol,
                                 RMul("1E-12", RAdd("1", RAbs(Curvature(u)))))
    [] OTHER -> TRUE
Dynamic(sch, u) == sch.name = "FX" /\ RGe(Decrease(u), sch.hybrid_tol)
LowCurvature(sch, u) == sch.name = "GNSBFGS" /\ RLe(Curvature(u), sch.hybrid_tol)
ZeroRes(sch, u) == sch.name = "TSSM" /\ REq(VNorm(u.r), "0")

(* next state if the change of the secant part is D                           *)
Follow(sch, st, u, D) ==
  CASE sch.name \in IterativeNames -> [st EXCEPT !.h = MAdd(st.h, D)]
    [] sch.name \in Hybrids ->
         LET i == MAdd(st.inner, D) IN
         [st EXCEPT !.inner = i, !.h = IF st.sw THEN i ELSE u.hess,
                    !.sw = Switched(sch, st, u)]
    [] sch.name = "FX" -> [st EXCEPT !.h = IF Dynamic(sch, u) THEN u.hess ELSE MAdd(st.h, D)]
    [] sch.name = "SSM" -> [st EXCEPT !.A = MAdd(st.A, D), !.h = MAdd(u.hess, MAdd(st.A, D))]
    [] sch.name = "TSSM" ->
         LET w == VNorm(u.r)
             a == IF REq(w, "0") THEN st.A ELSE MAdd(st.A, MScl(RDiv("1", w), D))
         IN [st EXCEPT !.A = a, !.h = MAdd(u.hess, MScl(w, a))]
    [] sch.name = "GNSBFGS" ->
         IF LowCurvature(sch, u)
         THEN [st EXCEPT !.h = MAdd(u.hess, MScl(VNorm(u.r), MEye(Len(u.s))))]
         ELSE [st EXCEPT !.A = MAdd(st.A, D), !.h = MAdd(u.hess, MAdd(st.A, D))]
=============================================================================
