------------------------------- MODULE Fides -------------------------------
(* The optimizer as a state machine in exact arithmetic, for one optimization *)
(* variable (so that every trial step is determined) and an environment that  *)
(* answers each evaluation with any member of a menu of outcome classes.      *)
(* The decision rules are those of Rules.tla and QN.tla, which also judge     *)
(* recorded runs (FidesTrace.tla).  TLC explores every sequence of outcomes   *)
(* for every configuration, checks the invariants below, and prints every     *)
(* complete behaviour; the harness replays all of them into the real code.    *)
EXTENDS QN, Json, IOUtils, TLC

Input == JsonDeserialize(IOEnv.CONFIGS)
Configs == Input.configs
Menu == Input.menu
Emit == Input.emit

VARIABLES c,    \* configuration
          pc,   \* control point
          o,    \* state of the optimizer
          log   \* evaluations so far, with the state before each
vars == <<c, pc, o, log>>

cfg == Configs[c]
Sch == cfg.scheme
Exact == Sch.name = "exact"
Res == Sch.name \in {"FX", "SSM", "TSSM", "GNSBFGS"}
Hybrid == Sch.name \in {"HybridFixed", "HybridFraction"}
Inner == IF "inner" \in DOMAIN Sch THEN Sch.inner ELSE Sch

Zero1 == <<"0">>
Fresh == [x |-> cfg.x0, f |-> "inf", g |-> Zero1, h |-> <<Zero1>>,
          delta |-> Opt(cfg, "delta_init"), fmin |-> "inf", xmin |-> Zero1,
          gmin |-> Zero1, k |-> 0, ratio |-> "none", since |-> 0, mid |-> 0,
          inner |-> <<Zero1>>, A |-> <<Zero1>>, sw |-> FALSE, res |-> Zero1,
          J |-> <<Zero1>>, el |-> "0", flag |-> "DID_NOT_RUN", kind |-> "run",
          trial |-> [x |-> Zero1, s |-> Zero1], out |-> [f |-> "0"],
          hist |-> <<>>]

\* a point at (or next to) a bound is moved into the interior
Interior(x) ==
  [i \in DOMAIN x |->
     IF RLt(RSub(cfg.ub[i], x[i]), SHIFT) THEN RSub(x[i], SHIFT)
     ELSE IF RLt(RSub(x[i], cfg.lb[i]), SHIFT) THEN RAdd(x[i], SHIFT) ELSE x[i]]

Pre(s) == [x |-> s.x, f |-> s.f, g |-> s.g, h |-> s.h, delta |-> s.delta,
           fmin |-> s.fmin, xmin |-> s.xmin, gmin |-> s.gmin,
           ratio |-> s.ratio, inner |-> s.inner, A |-> s.A]

(* --------------------------- the environment ----------------------------- *)
(* Menu item: [cls, r, g, h]; r is the ratio of actual to predicted decrease  *)
(* that the function value is chosen for.                                     *)
Outcome(m, first) ==
  LET tr == o.trial
      fv == IF first THEN cfg.f0
            ELSE CASE m.cls = "ratio" ->
                        \* with the bound term at the trial gradient
                        RSub(RAdd(o.f, RMul(m.r, tr.q)),
                             RHalf(VDot(AugW(IF Res THEN Zero1 ELSE <<m.g>>, tr.v, tr.dv),
                                        VMul(tr.s, tr.s))))
                   [] m.cls = "flat" -> o.f
                   [] m.cls = "nan" -> "nan" [] m.cls = "inf" -> "inf"
                   [] m.cls = "ninf" -> "-inf"
                   [] OTHER -> o.f
      fin == RFin(fv)
      jac == m.J
      rr == IF fin THEN RSqrt(RMul("2", RMax(fv, "0"))) ELSE fv
  IN IF Res
     THEN [f |-> IF fin THEN RHalf(RSq(rr)) ELSE IF RIsNan(fv) THEN "nan" ELSE "inf",
           g |-> <<RMul(rr, jac)>>, h |-> <<<<RSq(jac)>>>>, res |-> <<rr>>, J |-> <<<<jac>>>>,
           dt |-> m.dt, ok |-> ~fin \/ RLt("0.000001", fv)]
     ELSE [f |-> fv,
           g |-> IF m.cls = "gbad" THEN <<"nan">> ELSE <<m.g>>,
           h |-> IF m.cls = "hbad" THEN <<<<"inf">>>> ELSE <<<<m.h>>>>,
           res |-> Zero1, J |-> <<Zero1>>, dt |-> m.dt, ok |-> TRUE]
BadDer(e) == ~VFin(e.g) \/ ((Exact \/ Hybrid \/ Res) /\ ~MFin(e.h))

(* ------------------------------- the step -------------------------------- *)
Trial(s) ==
  LET x == s.x[1]  g == s.g[1]
      v == ScaleV(s.x, s.g, cfg.lb, cfg.ub)   dv == ScaleDv(s.g, cfg.lb, cfg.ub)
      th == Theta(cfg, v, s.g)
      cur == RAdd(s.h[1][1], AugW(s.g, v, dv)[1])
      lim == RMul(RSqrt(RAbs(v[1])), s.delta)
      dir == IF RLt("0", g) THEN RNeg(lim) ELSE lim
      opt == IF RLt("0", cur)
             THEN LET nw == RNeg(RDiv(g, cur)) IN IF RLt(RAbs(nw), lim) THEN nw ELSE dir
             ELSE dir
      br == IF REq(opt, "0") THEN "inf"
            ELSE IF RLt("0", opt) THEN RDiv(RSub(cfg.ub[1], x), opt)
            ELSE RDiv(RSub(cfg.lb[1], x), opt)
      alpha == RMin("1", RMul(th, br))
      st == RMul(alpha, opt)
  IN [x |-> <<RAdd(x, st)>>, s |-> <<st>>, v |-> v, dv |-> dv, theta |-> th,
      alpha |-> alpha, len |-> RDiv(RAbs(st), RSqrt(RAbs(v[1]))),
      q |-> RAdd(RMul(g, st), RHalf(RMul(cur, RSq(st))))]

(* ------------------------- Hessian approximation ------------------------- *)
Change(sch, B, s, y) == IterUpd(sch, B, s, y, "0", "0")
Clear(u) == ~u.any /\ Cardinality(u.D) = 1
Applied(u, B) == MAdd(B, CHOOSE D \in u.D : TRUE)
\* state after moving to the trial with outcome e: fields h, inner, A, sw
Updated(s, e) ==
  LET st == s.trial.s
      y == VSub(e.g, s.g)
      u == Change(Inner, IF Hybrid THEN s.inner ELSE s.h, st, y)
      sw == s.sw \/ (Sch.name = "HybridFixed" /\ s.since >= Sch.switch_iteration)
            \/ (Sch.name = "HybridFraction" /\ s.k > 25 /\
                RLt(Sch.switch_threshold, RDiv(RInt(s.mid), RInt(s.k))))
      nr == VNorm(e.res)   nrp == VNorm(s.res)
      yb0 == MTV(MSub(e.J, s.J), e.res)
      yb == IF Sch.name \in {"TSSM", "GNSBFGS"} THEN VScl(RDiv(nr, nrp), yb0) ELSE yb0
      hs == MV(e.h, st)
  IN CASE Exact -> [ok |-> TRUE, h |-> e.h, inner |-> s.inner, A |-> s.A, sw |-> FALSE]
       [] Sch.name \in IterativeNames ->
            [ok |-> Clear(u), h |-> IF Clear(u) THEN Applied(u, s.h) ELSE s.h,
             inner |-> s.inner, A |-> s.A, sw |-> FALSE]
       [] Hybrid ->
            LET i == IF Clear(u) THEN Applied(u, s.inner) ELSE s.inner IN
            [ok |-> Clear(u), inner |-> i, h |-> IF s.sw THEN i ELSE e.h, A |-> s.A, sw |-> sw]
       [] Sch.name = "FX" ->
            LET f2 == VDot(s.res, s.res)
                rel == RDiv(RSub(f2, VDot(e.res, e.res)), f2)
                z == Change(Inner, s.h, st, VAdd(hs, yb0))
            IN IF RGe(rel, Sch.hybrid_tol)
               THEN [ok |-> TRUE, h |-> e.h, inner |-> s.inner, A |-> s.A, sw |-> FALSE]
               ELSE [ok |-> Clear(z), h |-> IF Clear(z) THEN Applied(z, s.h) ELSE s.h,
                     inner |-> s.inner, A |-> s.A, sw |-> FALSE]
       [] OTHER ->   \* SSM, TSSM, GNSBFGS
            LET r == IF Sch.name = "TSSM" THEN nr ELSE "1"
                low == /\ Sch.name = "GNSBFGS"
                       /\ RLe(RDiv(VDot(yb, st), VDot(st, st)), Sch.hybrid_tol)
                z == IF Sch.name = "GNSBFGS"
                     THEN BroydenUpd(s.A, st, yb, "0", Sch.curv, "0", "0")
                     ELSE BroydenUpd(MAdd(e.h, MScl(r, s.A)), st, VAdd(hs, yb),
                                     Sch.phi, Sch.curv, "0", "0")
                a == IF Clear(z) THEN MAdd(s.A, MScl(RDiv("1", r), CHOOSE D \in z.D : TRUE))
                     ELSE s.A
            IN IF low
               THEN [ok |-> TRUE, h |-> MAdd(e.h, MScl(nr, MEye(1))), inner |-> s.inner,
                     A |-> s.A, sw |-> FALSE]
               ELSE [ok |-> Clear(z), h |-> MAdd(e.h, MScl(r, a)), inner |-> s.inner,
                     A |-> a, sw |-> FALSE]

(* ------------------------------ behaviour -------------------------------- *)
Say(s, lg, p) ==
  IF Emit THEN PrintT("@@" \o ToJson([c |-> c, pc |-> p, log |-> lg, kind |-> s.kind,
        flag |-> s.flag, k |-> s.k, post |-> Pre(s), hist |-> s.hist]))
  ELSE TRUE

Init == /\ c \in DOMAIN Configs
        /\ pc = "start"
        /\ o = Fresh
        /\ log = <<>>

\* the starting point is moved off its bounds, or refused
Begin ==
  /\ pc = "start"
  /\ LET x == Interior(cfg.x0) IN
     IF InBox(x, cfg.lb, cfg.ub)
     THEN /\ o' = [o EXCEPT !.x = x, !.trial = [x |-> x, s |-> Zero1]]
          /\ pc' = "initial"
     ELSE /\ o' = [o EXCEPT !.flag = "EXCEEDED_BOUNDARY", !.kind = "raise"]
          /\ pc' = "done"
          /\ Say(o', log, "done")
  /\ UNCHANGED <<c, log>>

EvaluateInitial(m) ==
  /\ pc = "initial"
  /\ LET e == Outcome(m, TRUE)
         ff == CASE m.cls \in {"nan", "inf"} -> m.cls [] m.cls = "ninf" -> "-inf"
                 [] OTHER -> e.f
         e1 == [e EXCEPT !.f = ff]
         h0 == IF Exact THEN e.h
               ELSE CASE cfg.hess0 = "none" -> MEye(1) [] cfg.hess0 = "given" -> cfg.h0
                      [] OTHER -> e.h
         bad == ~RFin(ff) \/ BadDer(e)
         s1 == [o EXCEPT !.f = ff, !.g = e.g, !.h = h0, !.inner = h0,
                 !.A = cfg.A0,
                 !.res = e.res, !.J = e.J, !.el = RAdd(o.el, e.dt),
                 !.fmin = IF RFin(ff) THEN ff ELSE "inf",
                 !.xmin = IF RFin(ff) THEN o.x ELSE Zero1,
                 !.gmin = IF RFin(ff) THEN e.g ELSE Zero1]
     IN /\ ~Res \/ m.cls = "ratio"
        /\ log' = Append(log, [x |-> o.x, out |-> e1, pre |-> Pre(o)])
        /\ IF bad
           THEN /\ o' = [s1 EXCEPT !.flag = "NOT_FINITE", !.kind = "raise"]
                /\ pc' = "done"
                /\ Say(o', log', "done")
           ELSE o' = s1 /\ pc' = "check"
  /\ UNCHANGED c

\* another iteration, or the end of the run; propose the next trial
Continue ==
  /\ pc = "check"
  /\ LET lims == Limits(cfg, o.k, o.el, o.delta)
         s1 == [o EXCEPT !.k = o.k + 1]
         tr == Trial(o)
         sharp == \* differences of function values resolve the model
            /\ RLt(RMul("1E-6", RAbs(o.f)), RAbs(tr.q))
            /\ RLt("0", RAbs(o.g[1]))
            \* and doubles resolve the step and the distance to the bound
            /\ RLt(RMul("1E7", RUlp(o.x[1])), RMin(RAbs(tr.s[1]), RAbs(tr.v[1])))
     IN IF o.flag \in Positive \/ lims # {}
        THEN /\ o' = [o EXCEPT !.kind = "return",
                 !.flag = IF o.flag \in Positive THEN o.flag
                          ELSE CHOOSE l \in lims :   \* documented order
                             \/ l = "MAXITER"
                             \/ l = "MAXTIME" /\ "MAXITER" \notin lims
                             \/ lims = {"DELTA_TOO_SMALL"}]
             /\ pc' = "done"
             /\ Say(o', log, "done")
        ELSE /\ o' = [s1 EXCEPT !.trial = tr]
             /\ pc' = IF sharp THEN "trial" ELSE "blurred"
             /\ IF sharp THEN TRUE ELSE Say(o, log, "blurred")
  /\ UNCHANGED <<c, log>>

Evaluate(m) ==
  /\ pc = "trial"
  /\ LET e == Outcome(m, FALSE) IN
     /\ e.ok
     /\ ~(Res /\ m.cls \in {"gbad", "hbad", "ninf"})
     /\ log' = Append(log, [x |-> o.trial.x, out |-> e, pre |-> Pre(o)])
     /\ LET s1 == [o EXCEPT !.out = e, !.el = RAdd(o.el, e.dt)] IN
        IF RFin(e.f) /\ BadDer(e)
        THEN /\ o' = [s1 EXCEPT !.flag = "NOT_FINITE", !.kind = "raise"]
             /\ pc' = "done"
             /\ Say(o', log', "done")
        ELSE o' = s1 /\ pc' = "rate"
  /\ UNCHANGED c

\* ratio, radius
Rate ==
  /\ pc = "rate"
  /\ LET e == o.out   tr == o.trial
         fin == RFin(e.f)
         augn == RHalf(VDot(AugW(e.g, tr.v, tr.dv), VMul(tr.s, tr.s)))
         r == IF fin THEN RatioOf(o.f, e.f, augn, tr.q) ELSE "0"
         kd == DeltaKind(cfg, fin, r, o.delta, tr.len)
     IN o' = [o EXCEPT !.ratio = r, !.delta = NextDelta(cfg, kd, o.delta, tr.len),
                !.since = IF kd \in {"grow", "shrink"} THEN 0 ELSE o.since + 1,
                !.mid = IF kd = "mid" THEN o.mid + 1 ELSE o.mid]
  /\ pc' = "settle"
  /\ UNCHANGED <<c, log>>

\* convergence, best point, move
Settle ==
  /\ pc = "settle"
  /\ LET e == o.out   tr == o.trial
         fin == RFin(e.f)
         acc == Accepts(fin, o.ratio)
         crit == Criteria(cfg, o.k, o.ratio, o.f, e.f, tr.len,
                          IF acc THEN e.f ELSE o.f, VNorm(IF acc THEN e.g ELSE o.g))
         better == fin /\ RLt(e.f, o.fmin)
         xn == Interior(tr.x)
         up == Updated(o, e)
         s1 == [o EXCEPT
            !.flag = IF "FTOL" \in crit THEN "FTOL" ELSE IF "XTOL" \in crit THEN "XTOL"
                     ELSE IF "GTOL" \in crit THEN "GTOL" ELSE o.flag,
            !.fmin = IF better THEN e.f ELSE o.fmin,
            !.xmin = IF better THEN (IF acc THEN xn ELSE tr.x) ELSE o.xmin,
            !.gmin = IF better THEN e.g ELSE o.gmin]
         s2 == IF acc THEN [s1 EXCEPT !.x = xn, !.f = e.f, !.g = e.g, !.h = up.h,
                              !.inner = up.inner, !.A = up.A, !.sw = up.sw,
                              !.res = e.res, !.J = e.J]
               ELSE s1
         row == [fval |-> e.f, tr_ratio |-> o.ratio, tr_radius |-> log[Len(log)].pre.delta,
                 normgrad |-> VNorm(s2.g), normstep |-> RAbs(tr.s[1]),
                 theta |-> tr.theta, alpha |-> tr.alpha,
                 accept |-> IF acc THEN "1" ELSE "0",
                 reflections |-> "0", truncations |-> "0",
                 hess_min_ev |-> s2.h[1][1], hess_max_ev |-> s2.h[1][1],
                 hess_update_min_ev |-> IF Exact THEN "nan" ELSE IF acc /\ ~Hybrid THEN
                       RSub(s2.h[1][1], o.h[1][1]) ELSE IF acc THEN "skip" ELSE "0",
                 iterations_since_tr_update |-> RInt(o.since),
                 subspace_dim |-> "1"]
     IN IF acc /\ ~up.ok
        THEN /\ pc' = "blurred" /\ o' = o /\ Say(o, log, "blurred")
        ELSE /\ o' = [s2 EXCEPT !.hist = Append(o.hist, row)]
             /\ pc' = "check"
  /\ UNCHANGED <<c, log>>

Next == Begin \/ Continue \/ Rate \/ Settle
        \/ \E m \in DOMAIN Menu : \/ Menu[m].initial /\ EvaluateInitial(Menu[m])
                                  \/ Menu[m].later /\ Evaluate(Menu[m])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------- properties (design) -------------------------- *)
(* Each recomputes its claim from the evaluation log, not from the rules that *)
(* the transitions use.                                                       *)
Values == {j \in DOMAIN log : RFin(log[j].out.f)}
Live == pc \notin {"start", "initial"} /\ log # <<>> /\ o.flag # "EXCEEDED_BOUNDARY"
Settled == pc \in {"check", "trial", "done"} /\ Live /\ o.flag # "NOT_FINITE"

C01_Bounds ==
  /\ \A j \in DOMAIN log : InBox(log[j].x, cfg.lb, cfg.ub)
  /\ (Live => InBox(o.x, cfg.lb, cfg.ub))
  /\ (Settled => InBox(o.xmin, cfg.lb, cfg.ub))
  /\ (o.flag = "EXCEEDED_BOUNDARY" => log = <<>> /\ ~InBox(cfg.x0, cfg.lb, cfg.ub))
C02_Best ==
  Settled => /\ \A j \in Values : RLe(o.fmin, log[j].out.f)
             /\ \E j \in Values : /\ REq(o.fmin, log[j].out.f)
                                  /\ Nudged(log[j].x, o.xmin, cfg.lb, cfg.ub)
                                  /\ VEq(log[j].out.g, o.gmin)
             /\ RLe(o.fmin, o.f)
\* the iterate belongs to one evaluation: the last that was accepted
C03_Coherent ==
  Settled => \E j \in Values : /\ REq(o.f, log[j].out.f) /\ VEq(o.g, log[j].out.g)
                               /\ Nudged(log[j].x, o.x, cfg.lb, cfg.ub)
                               /\ (Exact => MEq(o.h, log[j].out.h))
C03_Moves ==
  [][/\ (o'.x # o.x /\ pc = "settle" => RLt(o'.f, o.f) /\ RLt("0", o.ratio))
     /\ (pc \notin {"settle", "start", "initial"} => o'.x = o.x /\ o'.f = o.f)
     /\ (pc = "settle" /\ pc' = "check" /\ RLt("0", o.ratio) => o'.f = o.out.f)]_vars
C04_Radius ==
  /\ RLe("0", o.delta)
  /\ (pc = "rate" => RLe(o.trial.len, RMul(log[Len(log)].pre.delta, "1.0000000001")))
C04_Update ==
  [][pc = "rate" =>
       /\ (RLt(o.delta, o'.delta) => RGe(o'.ratio, Opt(cfg, "eta"))
                                     /\ AtLeast90(o.delta, o.trial.len))
       /\ (RLe(o'.ratio, Opt(cfg, "mu")) => RLe(RMul("3.9999999", o'.delta), o.trial.len)
                                            /\ RLt(o'.delta, o.delta))]_vars
C05_Flag ==
  /\ (pc = "done" /\ o.kind = "return" => o.flag \notin {"DID_NOT_RUN", "NOT_FINITE",
                                                         "EXCEEDED_BOUNDARY"})
  /\ (pc = "trial" => o.flag = "DID_NOT_RUN" /\ Limits(cfg, o.k - 1, o.el, o.delta) = {})
  /\ (o.flag = "GTOL" => RLe(VNorm(o.g), RMax(Opt(cfg, "gatol"),
                                             RMul(Opt(cfg, "grtol"), RAbs(o.f)))))
  /\ (o.flag = "XTOL" => o.k > 1 /\ RLt(o.trial.len, Opt(cfg, "xtol")))
  /\ (o.flag = "FTOL" => RLt("0", o.ratio))
C06_Finite ==
  Settled => /\ VFin(o.x) /\ RFin(o.f) /\ VFin(o.g) /\ MFin(o.h) /\ RFin(o.delta)
             /\ RFin(o.fmin) /\ VFin(o.xmin) /\ VFin(o.gmin)
C06_Rejected ==
  [][(pc = "settle" /\ ~RFin(o.out.f)) =>
       /\ o'.x = o.x /\ o'.f = o.f /\ o'.h = o.h /\ o'.fmin = o.fmin /\ o'.inner = o.inner
       /\ pc' = "check"]_vars
C07_Budget ==
  /\ (Live => Len(log) = o.k + (IF pc = "trial" \/ pc = "blurred" THEN 0 ELSE 1)
              \/ pc = "blurred")
  /\ RLe(RInt(o.k), Opt(cfg, "maxiter"))
C07_Terminates == <>(pc \in {"done", "blurred"})
\* the matrix is the fold of all accepted steps (schemes with a pure update)
Accepted == {j \in DOMAIN log : j > 1 /\ RFin(log[j].out.f) /\
              LET nx == IF j < Len(log) THEN log[j + 1].pre.f ELSE o.f
              IN REq(nx, log[j].out.f) /\ ~REq(log[j].pre.f, nx)}
C15_Fold ==
  (pc = "check" /\ Sch.name \in IterativeNames) =>
    LET RECURSIVE fold(_, _, _)
        fold(j, B, last) ==
          IF j > Len(log) THEN B
          ELSE IF j \notin Accepted THEN fold(j + 1, B, last)
          ELSE LET s == VSub(log[j].x, log[j].pre.x)
                   u == Change(Sch, B, s, VSub(log[j].out.g, last))
               IN fold(j + 1, IF Clear(u) THEN Applied(u, B) ELSE B, log[j].out.g)
        B0 == CASE cfg.hess0 = "none" -> MEye(1) [] cfg.hess0 = "given" -> cfg.h0
                [] OTHER -> log[1].out.h
    IN MNear(o.h, fold(2, B0, log[1].out.g), RMul("1E-9", RAdd("1", MMax(o.h))))
C16_Rows == pc \in {"check", "done"} /\ o.kind # "raise" => Len(o.hist) = o.k
C19_Scaling ==
  pc = "trial" =>
    LET t == o.trial IN
    /\ (RLt(o.g[1], "0") /\ RFin(cfg.ub[1]) => REq(t.v[1], RSub(o.x[1], cfg.ub[1])))
    /\ (RLe("0", o.g[1]) /\ RFin(cfg.lb[1]) => REq(t.v[1], RSub(o.x[1], cfg.lb[1])))
    /\ (REq(t.dv[1], "0") <=> REq(RAbs(t.v[1]), "1") /\
          ~RFin(IF RLt(o.g[1], "0") THEN cfg.ub[1] ELSE cfg.lb[1])) 
C12_Fraction ==
  pc = "trial" => LET t == o.trial  x == o.x[1] IN
    RLe(RAbs(t.s[1]), RMul(RMul(t.theta, "1.0000000001"),
        IF RLt("0", t.s[1]) THEN RSub(cfg.ub[1], x) ELSE RSub(x, cfg.lb[1])))
C11_Descent == pc = "trial" => RLt(o.trial.q, "0")
============================================================================
