------------------------------- MODULE Rules -------------------------------
(* The decision rules of the interior trust-region reflective optimizer, as   *)
(* functions of observable quantities.  Fides.tla (the design) takes its      *)
(* transitions from here, FidesTrace.tla judges recorded runs with the same   *)
(* operators, so that there is one source of truth for both.                  *)
EXTENDS R60, Naturals, Sequences, FiniteSets

EPS == "2.220446049250313E-16"          \* spacing of doubles at one
SHIFT == "2.220446049250313E-14"        \* documented degeneracy threshold

(* ---------------------------- configuration ------------------------------ *)
Default(o) ==
  CASE o = "maxiter" -> "1000"   [] o = "maxtime" -> "inf"
    [] o = "fatol" -> "1E-8"     [] o = "frtol" -> "1E-8"
    [] o = "xtol" -> "0"         [] o = "gatol" -> "1E-6"
    [] o = "grtol" -> "0"        [] o = "theta_max" -> "0.95"
    [] o = "delta_init" -> "1"   [] o = "mu" -> "0.25"
    [] o = "eta" -> "0.75"       [] o = "gamma1" -> "0.25"
    [] o = "gamma2" -> "2"       [] o = "subspace_solver" -> "2D"
    [] o = "stepback_strategy" -> "reflect" [] o = "history_file" -> "none"
Opt(cfg, o) == IF o \in DOMAIN cfg.opts THEN cfg.opts[o] ELSE Default(o)

(* -------------------- distance-to-bound scaling (C19) -------------------- *)
\* the bound that the descent direction of variable i points to
Faced(g, lb, ub) == [i \in DOMAIN g |-> IF RLt(g[i], "0") THEN ub[i] ELSE lb[i]]
ScaledVars(g, lb, ub) == {i \in DOMAIN g : RFin(Faced(g, lb, ub)[i])}
ScaleV(x, g, lb, ub) ==
  LET b == Faced(g, lb, ub)
  IN [i \in DOMAIN g |-> IF RFin(b[i]) THEN RSub(x[i], b[i])
                         ELSE IF RLt(g[i], "0") THEN "-1" ELSE "1"]
ScaleDv(g, lb, ub) ==
  LET b == Faced(g, lb, ub)
  IN [i \in DOMAIN g |-> IF RFin(b[i]) THEN "1" ELSE "0"]
Theta(cfg, v, g) ==
  RMax(Opt(cfg, "theta_max"), RSub("1", VNormInf(VMul(v, g))))

(* ------------------------------ model ------------------------------------ *)
(* Step s in unscaled coordinates.  q is the scaled quadratic model, aug the  *)
(* bound term, both written without square roots.                             *)
AugW(g, v, dv) == [i \in DOMAIN g |->
  IF REq(dv[i], "0") \/ REq(v[i], "0") THEN "0"
  ELSE RDiv(RMul(RAbs(g[i]), dv[i]), RAbs(v[i]))]
Aug(g, v, dv, s) == RHalf(VDot(AugW(g, v, dv), VMul(s, s)))
Model(g, h, v, dv, s) ==
  RAdd(RAdd(VDot(g, s), RHalf(QF(h, s))), Aug(g, v, dv, s))
ScaledLen(v, s) ==
  RSqrt(VDot(VMul(s, s), [i \in DOMAIN s |-> IF REq(v[i], "0") THEN "0"
                                               ELSE RDiv("1", RAbs(v[i]))]))

RatioOf(f, fn, aug, q) ==
  IF RLe("0", q) THEN "0" ELSE RDiv(RSub(RSub(f, fn), aug), RNeg(q))

(* -------------------- radius, acceptance, counters ----------------------- *)
Shrunk(cfg, delta, len) ==
  RMin(RMul(delta, Opt(cfg, "gamma1")), RDiv(len, "4"))
AtLeast90(delta, len) == RLe(RMul(delta, "0.9"), len)
\* kind of radius update: "grow", "shrink", "mid" (mu < ratio < eta), "keep"
DeltaKind(cfg, fin, ratio, delta, len) ==
  IF ~fin THEN "shrink"
  ELSE IF RGe(ratio, Opt(cfg, "eta")) /\ AtLeast90(delta, len) THEN "grow"
  ELSE IF RLe(ratio, Opt(cfg, "mu")) THEN "shrink"
  ELSE IF RLt(ratio, Opt(cfg, "eta")) THEN "mid"
  ELSE "keep"
NextDelta(cfg, kind, delta, len) ==
  CASE kind = "grow"   -> RMul(Opt(cfg, "gamma2"), delta)
    [] kind = "shrink" -> Shrunk(cfg, delta, len)
    [] OTHER           -> delta
Accepts(fin, ratio) == fin /\ RLt("0", ratio)

(* ---------------------------- convergence -------------------------------- *)
(* The set of criteria that hold after a trial; a = accepted, (f, gn) function *)
(* value and gradient norm of the retained point.                              *)
FtolHolds(cfg, ratio, fold, fn) ==
  /\ RFin(fn) /\ RLt(Opt(cfg, "mu"), ratio)
  /\ RLt(RAbs(RSub(fn, fold)),
         RAdd(Opt(cfg, "fatol"), RMul(Opt(cfg, "frtol"), RAbs(fold))))
XtolHolds(cfg, k, len) == k > 1 /\ RLt(len, Opt(cfg, "xtol"))
GtolHolds(cfg, fref, gn) ==
  \/ RLe(gn, Opt(cfg, "gatol"))
  \/ RLe(gn, RMul(Opt(cfg, "grtol"), RAbs(fref)))
Criteria(cfg, k, ratio, fold, fn, len, fref, gn) ==
  {c \in {"FTOL", "XTOL", "GTOL"} :
     CASE c = "FTOL" -> FtolHolds(cfg, ratio, fold, fn)
       [] c = "XTOL" -> XtolHolds(cfg, k, len)
       [] c = "GTOL" -> GtolHolds(cfg, fref, gn)}

(* ------------------------------ budgets ---------------------------------- *)
(* before iteration k + 1, after `el' seconds                                 *)
MaxIterHolds(cfg, k) == RLe(Opt(cfg, "maxiter"), RInt(k))
MaxTimeHolds(cfg, k, el) ==
  RLt(RSub(Opt(cfg, "maxtime"), el), RDiv(el, RInt(IF k = 0 THEN 1 ELSE k)))
TinyDelta(delta) == RLt(delta, EPS)
Limits(cfg, k, el, delta) ==
  {c \in {"MAXITER", "MAXTIME", "DELTA_TOO_SMALL"} :
     CASE c = "MAXITER" -> MaxIterHolds(cfg, k)
       [] c = "MAXTIME" -> MaxTimeHolds(cfg, k, el)
       [] c = "DELTA_TOO_SMALL" -> TinyDelta(delta)}

FlagNo(c) == CASE c = "DID_NOT_RUN" -> 0 [] c = "MAXITER" -> 0-1
  [] c = "MAXTIME" -> 0-2 [] c = "NOT_FINITE" -> 0-3
  [] c = "EXCEEDED_BOUNDARY" -> 0-4 [] c = "DELTA_TOO_SMALL" -> 0-5
  [] c = "FTOL" -> 1 [] c = "XTOL" -> 2 [] c = "GTOL" -> 3
FlagNames == {"DID_NOT_RUN", "MAXITER", "MAXTIME", "NOT_FINITE",
              "EXCEEDED_BOUNDARY", "DELTA_TOO_SMALL", "FTOL", "XTOL", "GTOL"}
FlagName(i) == CHOOSE c \in FlagNames : FlagNo(c) = i
Positive == {"FTOL", "XTOL", "GTOL"}

(* ------------------------------- points ---------------------------------- *)
InBox(x, lb, ub) == \A i \in DOMAIN x : RLe(lb[i], x[i]) /\ RLe(x[i], ub[i])
\* y is x, or x moved by the documented threshold into the interior where it
\* touches a bound
NUDGE == "2.3E-14"
Nudged(x, y, lb, ub) ==
  \A i \in DOMAIN x :
    \/ REq(x[i], y[i])
    \/ LET sl == RAdd(NUDGE, RAdd(RUlp(x[i]), RUlp(y[i]))) IN
       \/ RLe(RSub(ub[i], x[i]), sl) /\ RLe(y[i], x[i]) /\ RLe(RSub(x[i], y[i]), sl)
       \/ RLe(RSub(x[i], lb[i]), sl) /\ RLe(x[i], y[i]) /\ RLe(RSub(y[i], x[i]), sl)
\* y off the bounds wherever there is room for that
OffBounds(y, lb, ub) ==
  \A i \in DOMAIN y :
    \/ RLt("50", RAbs(y[i]))                       \* shift below the spacing
    \/ RLt(RSub(ub[i], lb[i]), "1E-13")            \* no room
    \/ RLt(lb[i], y[i]) /\ RLt(y[i], ub[i])
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
\* sorted-free checks that two vectors agree
VEq(u, w) == DOMAIN u = DOMAIN w /\ \A i \in DOMAIN u :
                 REq(u[i], w[i]) \/ (RIsNan(u[i]) /\ RIsNan(w[i]))
MEq(u, w) == DOMAIN u = DOMAIN w /\ \A i \in DOMAIN u : VEq(u[i], w[i])
REqN(a, b) == REq(a, b) \/ (RIsNan(a) /\ RIsNan(b))
============================================================================
