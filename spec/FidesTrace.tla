----------------------------- MODULE FidesTrace ----------------------------
(* Judges recorded runs of fides.  A trace is the sequence of objective       *)
(* evaluations of one run, each with the optimizer's public state before the  *)
(* call, and the way the run ended.  Every event is judged by a list of named *)
(* clauses; the verdict is total: failing clauses are printed and the trace   *)
(* is followed to its end regardless.                                         *)
EXTENDS QN, SolverRules, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)

VARIABLES t,      \* trace
          l,      \* next event (evaluation l has iteration number l - 1)
          m       \* memory of the specification
vars == <<t, l, m>>

Has(r, f) == f \in DOMAIN r
T == Traces[t]
cfg == T.cfg
N == Len(T.ev)
Ended == T.end.kind
Returned == Ended = "return"
PostKnown(i) == i < N \/ (Has(T.end, "post") /\ Returned)
Post(i) == IF i < N THEN T.ev[i + 1].pre ELSE T.end.post
FlagIs(c) == T.end.flag = FlagNo(c)
BadVal(e) == ~RFin(e.f)
BadDer(e) == ~VFin(e.g) \/ (Has(e, "h") /\ ~MFin(e.h))

Exact == cfg.scheme.name = "exact"
Sch == cfg.scheme
Solver == Opt(cfg, "subspace_solver")
Strategy == Opt(cfg, "stepback_strategy")
Symm == Sch.name \notin {"BG", "BB"} /\
        (Has(Sch, "inner") => Sch.inner.name \notin {"BG", "BB"})

(* ------------------------------------------------------------------------ *)
(* quantities of iteration i (evaluation i >= 2)                              *)
Q(i) ==
  LET e == T.ev[i]
      p == e.pre
      \* recorded numbers are shortest decimals; differences need the doubles
      x == VDbl(p.x)   xn == VDbl(e.x)   g == p.g   h == p.h
      v == ScaleV(x, g, VDbl(cfg.lb), VDbl(cfg.ub))
      dv == ScaleDv(g, cfg.lb, cfg.ub)
      s == VSub(xn, x)
      ds == [j \in DOMAIN s |-> RMul("2", RAdd(RUlp(x[j]), RUlp(xn[j])))]
      deg == \E j \in DOMAIN v : REq(v[j], "0")
      iv == [j \in DOMAIN v |-> IF REq(v[j], "0") THEN "0" ELSE RDiv("1", RAbs(v[j]))]
      len == RSqrt(VDot(VMul(s, s), iv))
      lenTol == RAdd(RSqrt(VDot(VMul(ds, ds), iv)), RMul("1E-12", len))
      w == AugW(g, v, dv)
      aug == RHalf(VDot(w, VMul(s, s)))
      hs == MV(h, s)
      q == RAdd(RAdd(VDot(g, s), RHalf(VDot(s, hs))), aug)
      ah == [j \in DOMAIN h |-> VAbs(h[j])]
      as == VAbs(s)
      ahs == MV(ah, as)
      grad == VAdd(VAdd(g, VScl("0.5", VAdd(hs, MTV(h, s)))), VMul(w, s))
      qTol == RAdd(VDot(VAbs(grad), ds),
               RAdd(RHalf(VDot(ds, MV(ah, ds))),
                RMul("2E-13", RAdd(VDot(VAbs(g), as), RAdd(VDot(as, ahs), aug)))))
      \* the bound term of the actual decrease takes the gradient at the trial
      wn == IF VFin(e.g) THEN AugW(e.g, v, dv) ELSE w
      augn == RHalf(VDot(wn, VMul(s, s)))
      act == RSub(RSub(p.f, e.f), augn)
      actTol == RAdd(RMul("1E-15", RAdd(RAbs(p.f), RAdd(RAbs(e.f), augn))),
                     RAdd(VDot(VMul(wn, as), ds), RMul("1E-13", augn)))
  IN [v |-> v, dv |-> dv, s |-> s, ds |-> ds, deg |-> deg, iv |-> iv,
      len |-> len, lenTol |-> lenTol, aug |-> augn, q |-> q, qTol |-> qTol,
      act |-> act, actTol |-> actTol, w |-> w]

(* model value of the stepped-back steepest-descent step                      *)
Cauchy(p, z) ==
  LET g == p.g   h == p.h
      d == [j \in DOMAIN g |-> RNeg(RMul(RAbs(z.v[j]), g[j]))] \* D^2 (-g), unscaled
      gg == RNeg(VDot(d, g))                                   \* |sg|^2
      cur == RAdd(QF(h, d), VDot(z.w, VMul(d, d)))
      tb == RDiv(p.delta, RSqrt(gg))
      tau == IF RLt("0", cur) THEN RMin(RDiv(gg, cur), tb) ELSE tb
      br == [j \in DOMAIN d |->
               IF REq(d[j], "0") THEN "inf"
               ELSE RDiv(IF RLt("0", d[j]) THEN RSub(RDbl(cfg.ub[j]), RDbl(p.x[j]))
                         ELSE RSub(RDbl(cfg.lb[j]), RDbl(p.x[j])), RMul(tau, d[j]))]
      mb == LET RECURSIVE mn(_) mn(j) == IF j = 1 THEN br[1] ELSE RMin(br[j], mn(j - 1))
            IN mn(Len(br))
      alpha == RMin("1", RMul(Theta(cfg, z.v, g), mb))
      a == RMul(alpha, tau)
  IN IF REq(gg, "0") THEN "0"
     ELSE RAdd(RMul(RNeg(a), gg), RHalf(RMul(RSq(a), cur)))

ScaledHess(p, z) ==
  LET d == [j \in DOMAIN z.v |-> RSqrt(RAbs(z.v[j]))] IN
  [i \in DOMAIN d |-> [j \in DOMAIN d |->
     RAdd(RMul(RMul(d[i], d[j]), p.h[i][j]),
          IF i = j THEN RMul(RAbs(p.g[i]), z.dv[i]) ELSE "0")]]

(* ------------------------------------------------------------------------ *)
Moved(i) ==
  LET e == T.ev[i]  p == e.pre  o == Post(i)
  IN ~VEq(o.x, p.x) \/ ~REqN(o.f, p.f) \/ ~VEq(o.g, p.g)
Ratio(i) == Post(i).ratio

\* widened comparison of the ratio (only where it cannot be observed)
RatioSeen(i) == PostKnown(i) /\ Post(i).ratio # "none"

(* --------------------------- clauses: start ------------------------------ *)
StartClauses ==
  LET e == T.ev[1]
      bad == BadVal(e) \/ BadDer(e)
      known == PostKnown(1)
      o == Post(1)
  IN <<
   <<"C01.eval", InBox(e.x, cfg.lb, cfg.ub)>>,
   <<"C01.x0", Nudged(cfg.x0, e.x, cfg.lb, cfg.ub)>>,
   <<"C01.off", OffBounds(e.x, cfg.lb, cfg.ub)>>,
   <<"C06.point", VFin(e.x)>>,
   <<"C06.initial", bad <=> (N = 1 /\ Ended = "raise" /\ T.end.exc = "RuntimeError"
                             /\ FlagIs("NOT_FINITE"))>>,
   <<"C02.initial", known => /\ REq(o.fmin, e.f) /\ VEq(o.gmin, e.g)
                             /\ Nudged(e.x, o.xmin, cfg.lb, cfg.ub)>>,
   <<"C03.initial", known => /\ VEq(o.x, e.x) /\ REq(o.f, e.f) /\ VEq(o.g, e.g)
                             /\ (Exact => MEq(o.h, e.h))>>,
   <<"C04.initial", known => RNear(o.delta, Opt(cfg, "delta_init"),
                                   RUlp(Opt(cfg, "delta_init")))>>,
   <<"C15.initial", known =>
       CASE Exact -> MEq(o.h, e.h)
         [] cfg.hess0 = "none"  -> MEq(o.h, MEye(cfg.n))
         [] cfg.hess0 = "given" -> MEq(o.h, cfg.h0)
         [] cfg.hess0 = "hess"  -> Has(e, "h") => MEq(o.h, e.h)>>,
   <<"C13.initial", (known /\ ~Exact /\ cfg.hess0 # "hess") =>
       MEq(o.h, IF cfg.hess0 = "none" THEN MEye(cfg.n) ELSE cfg.h0)>>,
   <<"C15.inner0", (known /\ Has(o, "inner")) => MEq(o.inner, o.h)>>
  >>

(* --------------------------- clauses: trials ----------------------------- *)
\* permitted radius update kinds, given the observed ratio
Kinds(i, z, r) ==
  LET p == T.ev[i].pre
      fin == RFin(T.ev[i].f)
  IN {DeltaKind(cfg, fin, r, p.delta, ln) :
        ln \in {RSub(z.len, z.lenTol), RAdd(z.len, z.lenTol)}}
DeltaOk(i, z, r) ==
  LET p == T.ev[i].pre   o == Post(i)
  IN \E k \in Kinds(i, z, r) :
       RNear(o.delta, NextDelta(cfg, k, p.delta, z.len),
             RAdd(RMul("1E-14", p.delta),
                  IF k = "shrink" THEN z.lenTol ELSE "0"))

RatioOk(i, z, r) ==
  IF RLe(z.q, RNeg(z.qTol))
  THEN RLe(RAbs(RSub(RMul(r, RNeg(z.q)), z.act)),
           RAdd(RAdd(z.actTol, RMul(RAbs(r), z.qTol)),
                RMul("1E-12", RAbs(z.act))))
  ELSE IF RLt(z.qTol, z.q) THEN REq(r, "0") ELSE TRUE

ValueClauses(i) ==        \* of the trial itself
  LET e == T.ev[i]  p == e.pre  z == Q(i)
      th == Theta(cfg, z.v, p.g)
      usable == ~z.deg /\ VFin(e.x) /\ VFin(p.g) /\ MFin(p.h)
      cau == Cauchy(p, z)
      noRefl == Strategy \in {"truncate", "refine"} \/ cfg.n = 1
      cauchyApplies == /\ usable /\ Symm /\ cfg.n >= 1
                       /\ (Solver # "2D" \/ cfg.n = 1 \/
                            LET B == ScaledHess(p, z) IN
                            RLt("0", MMax(B)) /\
                            MPsd(MSub(B, MScl(RMul("1E-12", MMax(B)), MEye(cfg.n)))))
  IN <<
   <<"C01.eval", InBox(e.x, cfg.lb, cfg.ub)>>,
   <<"C01.iterate", InBox(p.x, cfg.lb, cfg.ub)>>,
   <<"C06.point", VFin(e.x)>>,
   <<"C06.state", VFin(p.x) /\ RFin(p.f) /\ RFin(p.fmin) /\ RFin(p.delta)
                  /\ VFin(p.xmin)>>,
   <<"C04.length", usable => RLe(RSub(z.len, z.lenTol), RMul(p.delta, "1.000001"))>>,
   <<"C11.length", usable => RLe(RSub(z.len, z.lenTol), RMul(p.delta, "1.000001"))>>,
   <<"C11.feasible", InBox(e.x, cfg.lb, cfg.ub) /\ VFin(e.x)>>,
   <<"C11.descent", (usable /\ Symm) => RLe(z.q, z.qTol)>>,
   <<"C11.cauchy", cauchyApplies =>
        RLe(z.q, RAdd(z.qTol, RMul("0.999999", cau)))>>,
   \* without bounds the trial is the solution of the subproblem itself
   <<"C09.full", (usable /\ Symm /\ Solver = "full" /\ cfg.n > 1 /\
                  \A j \in 1..cfg.n : ~RFin(cfg.lb[j]) /\ ~RFin(cfg.ub[j])) =>
        CertifiedUpTo(p.h, p.g, z.s, p.delta,
          RMul(RMul("4", RAdd(p.delta, z.len)), RAdd(VNorm(MV([j \in 1..cfg.n |-> VAbs(p.h[j])], z.ds)),
            RMul(VNorm(z.ds), RAdd(RDiv(VNorm(p.g), p.delta), MMax(p.h))))))>>,
   <<"C12.fraction", (usable /\ noRefl) =>
        \A j \in 1..cfg.n :
          LET xj == RDbl(p.x[j])
              room == IF RLt("0", z.s[j]) THEN RSub(RDbl(cfg.ub[j]), xj)
                      ELSE RSub(xj, RDbl(cfg.lb[j]))
          IN RLe(RSub(RAbs(z.s[j]), z.ds[j]), RMul(room, RMul(th, "1.00000001")))>>,
   <<"C19.v", Has(p, "v") => \A j \in 1..cfg.n :
        RNear(p.v[j], z.v[j], RAdd(RMul("1E-14", RAbs(z.v[j])),
                                   RMul("2", RMul(EPS, RAbs(p.x[j])))))>>,
   <<"C19.dv", Has(p, "dv") => \A j \in 1..cfg.n : REq(p.dv[j], z.dv[j])>>,
   <<"C19.scaling", Has(p, "scal") => \A j \in 1..cfg.n :
        LET d == RSqrt(RAbs(z.v[j])) IN
        RNear(RSq(p.scal[j]), RAbs(z.v[j]),
              RAdd(RMul("1E-13", RAbs(z.v[j])), RMul("4", RMul(EPS, RAbs(p.x[j])))))>>,
   <<"C12.theta", Has(p, "theta") => 
        LET e0 == RMul("1E-13", RAdd("1", VNormInf(VMul(VAdd(VAbs(p.x), VAbs(z.v)), p.g))))
        IN RNear(p.theta, th, e0)>>,
   <<"C04.radius", Has(p, "tdelta") => REq(p.tdelta, p.delta)>>,
   <<"C15.exact", Exact => MEq(p.h, T.ev[m.cur].h)>>,
   <<"C03.coherent", /\ REq(p.f, T.ev[m.cur].f) /\ VEq(p.g, T.ev[m.cur].g)
                     /\ Nudged(T.ev[m.cur].x, p.x, cfg.lb, cfg.ub)
                     /\ (Exact => MEq(p.h, T.ev[m.cur].h))>>
  >>

OutcomeClauses(i) ==      \* what the optimizer did with the result
  LET e == T.ev[i]  p == e.pre  o == Post(i)  z == Q(i)
      fin == RFin(e.f)
      r == IF RatioSeen(i) THEN Ratio(i) ELSE RatioOf(p.f, e.f, z.aug, z.q)
      moved == Moved(i)
      acc == Accepts(fin, r)
      usable == ~z.deg /\ VFin(e.x)
      touching == \E j \in 1..cfg.n :
         RLe(RSub(cfg.ub[j], e.x[j]), SHIFT) \/ RLe(RSub(e.x[j], cfg.lb[j]), SHIFT)
      rejOk == VEq(o.x, p.x) /\ REq(o.f, p.f) /\ VEq(o.g, p.g) /\ MEq(o.h, p.h)
      best == RMin(m.fmin, IF fin THEN e.f ELSE "inf")
      ratioOk == (usable /\ fin /\ RatioSeen(i)) => RatioOk(i, z, r)
  IN <<
   <<"C04.ratio", ratioOk>>,
   <<"C03.ratio", ratioOk>>,
   <<"C11.model", ratioOk>>,
   <<"C03.iff", moved <=> acc>>,
   <<"C03.stay", ~acc => rejOk>>,
   <<"C03.move", acc => /\ Nudged(e.x, o.x, cfg.lb, cfg.ub) /\ REq(o.f, e.f)
                        /\ VEq(o.g, e.g) /\ (Exact => MEq(o.h, e.h))>>,
   <<"C03.decrease", moved => RLt(e.f, p.f)>>,
   <<"C01.iterate", InBox(o.x, cfg.lb, cfg.ub)>>,
   <<"C01.nudge", moved => Nudged(e.x, o.x, cfg.lb, cfg.ub)
                           /\ OffBounds(o.x, cfg.lb, cfg.ub)>>,
   <<"C02.value", REq(o.fmin, best)>>,
   <<"C02.point", \E j \in 1..i : /\ REq(T.ev[j].f, o.fmin)
                                  /\ Nudged(T.ev[j].x, o.xmin, cfg.lb, cfg.ub)
                                  /\ VEq(T.ev[j].g, o.gmin)>>,
   <<"C02.below", RLe(o.fmin, o.f)>>,
   <<"C01.best", InBox(o.xmin, cfg.lb, cfg.ub)>>,
   <<"C04.update", usable => DeltaOk(i, z, r)>>,
   <<"C06.contain", ~fin => /\ ~moved /\ rejOk /\ REq(o.fmin, p.fmin)
                            /\ VEq(o.xmin, p.xmin) /\ VEq(o.gmin, p.gmin)>>,
   <<"C06.shrink", (~fin /\ usable) => DeltaOk(i, z, "0")>>,
   <<"C06.hess", ~fin => /\ (Has(p, "inner") => MEq(p.inner, o.inner))
                         /\ (Has(p, "A") => MEq(p.A, o.A))>>,
   <<"C06.post", VFin(o.x) /\ RFin(o.f) /\ RFin(o.fmin) /\ RFin(o.delta)
                 /\ VFin(o.xmin)>>,
   <<"C06.refuse", ~(fin /\ BadDer(e))>>,
   <<"C15.rejected", ~acc => /\ MEq(o.h, p.h)
                             /\ (Has(p, "inner") => MEq(p.inner, o.inner))
                             /\ (Has(p, "A") => MEq(p.A, o.A))>>,
   <<"C15.accepted", (acc /\ Exact) => MEq(o.h, e.h)>>
  >>

(* --------------------- clauses: Hessian approximation -------------------- *)
\* an accepted step with an approximation scheme
HessClauses(i) ==
  LET e == T.ev[i]  p == e.pre  o == Post(i)  z == Q(i)
      s == z.s
      dsn == VNorm(z.ds)
      y == VSub(VDbl(e.g), VDbl(p.g))
      dyn == RMul(EPS, VNorm(y))
      inner == IF Has(Sch, "inner") THEN Sch.inner ELSE Sch
      kind == Sch.name
      prev == T.ev[m.cur]
      fix(B) == B
      \* residual information
      yb0 == MTV(MSub(MDbl(e.sres), MDbl(prev.sres)), e.res)
      nr == VNorm(e.res)   nrp == VNorm(prev.res)
      yb == IF kind \in {"TSSM", "GNSBFGS"} THEN VScl(RDiv(nr, nrp), yb0) ELSE yb0
      ssz == RAdd(MMax(e.sres), MMax(prev.sres))
      eyb == RMul(IF kind \in {"TSSM", "GNSBFGS"} THEN RDiv(nr, nrp) ELSE "1",
                  RMul("20", RMul(EPS, RMul(RInt(Len(e.res) * cfg.n), RMul(ssz, nr)))))
      hs == MV(e.h, s)
      eh == RMul(RInt(cfg.n + 2), RMul(MMax(e.h), RAdd(dsn, RMul("8", RMul(EPS, VNorm(s))))))
      ys == VAdd(hs, yb)
      dys == RAdd(eyb, eh)
      htol == RMul("1E-13", RAdd(MMax(e.h), RAdd(MMax(o.h),
                 IF Has(o, "A") THEN RMul(RAdd("1", nr), MMax(o.A)) ELSE "0")))
  IN
  CASE kind \in IterativeNames ->
        LET ok == Permitted(IterUpd(Sch, p.h, s, y, dsn, dyn), p.h, o.h) IN
        <<<<"C15.update", ok>>, <<"C13.update", ok>>>>
    [] kind \in {"HybridFixed", "HybridFraction"} ->
        LET ok == Permitted(IterUpd(inner, p.inner, s, y, dsn, dyn), p.inner, o.inner)
            mat_ == IF m.sw THEN MEq(o.h, o.inner) ELSE MEq(o.h, e.h)
        IN <<<<"C15.inner", ok>>, <<"C14.inner", ok>>, <<"C15.hybrid", mat_>>,
             <<"C14.switch", mat_>>>>
    [] kind = "FX" ->
        LET fr == VDot(prev.res, prev.res)
            ratio == RDiv(RSub(fr, VDot(e.res, e.res)), fr)
            amb == RNear(ratio, Sch.hybrid_tol, "1E-12")
            up == Permitted(IterUpd(inner, p.h, s, VAdd(hs, yb0), dsn, dys), p.h, o.h)
            gn == MEq(o.h, e.h)
            ok == IF amb THEN up \/ gn
                  ELSE IF RGe(ratio, Sch.hybrid_tol) THEN gn ELSE up
        IN <<<<"C15.fx", ok>>, <<"C14.fx", ok>>>>
    [] kind \in {"SSM", "TSSM", "GNSBFGS"} /\ Has(p, "A") ->
        LET rr == IF kind = "TSSM" THEN nr ELSE "1"
            ratio == RDiv(VDot(yb, s), VDot(s, s))
            eratio == RMul("4", RAdd(RDiv(eyb, VNorm(s)),
                         RMul(RDiv(VNorm(yb), VNorm(s)), RDiv(dsn, VNorm(s)))))
            gnamb == RNear(ratio, Sch.hybrid_tol, RAdd(eratio, "1E-12"))
            bs == MAdd(e.h, MScl(rr, p.A))
            phi == IF Has(Sch, "phi") THEN Sch.phi ELSE "0"
            \* perturbation of the base matrix is part of the rounding errors
            aok == IF kind = "GNSBFGS"
                   THEN Permitted(BroydenUpd(p.A, s, yb, "0", Sch.curv, dsn, eyb), p.A, o.A)
                   ELSE IF REq(nr, "0") THEN MEq(o.A, p.A)
                   ELSE PermittedDiv(BroydenUpd(bs, s, ys, phi, Sch.curv, dsn, dys),
                                     rr, p.A, o.A)
            sum == MNear(o.h, MAdd(e.h, MScl(rr, o.A)), htol)
            gnmat == MNear(o.h, MAdd(e.h, MScl(nr, MEye(cfg.n))), htol) /\ MEq(o.A, p.A)
            ok == IF kind # "GNSBFGS" THEN aok /\ sum
                  ELSE IF gnamb THEN (aok /\ sum) \/ gnmat
                  ELSE IF RLt(Sch.hybrid_tol, ratio) THEN aok /\ sum ELSE gnmat
        IN <<<<"C15.structured", ok>>, <<"C14.structured", ok>>>>
    [] OTHER -> <<>>

(* ------------------- clauses: stopping and continuing -------------------- *)
RelTol == "1E-12"
\* comparison a < b / a <= b with margin: "yes", "no", "maybe"
Cmp3(a, b, tol) ==
  IF RLe(RAdd(a, tol), b) THEN "yes" ELSE IF RLt(RAdd(b, tol), a) THEN "no"
  ELSE "maybe"
Crit3(i) ==   \* criterion -> verdict, after evaluation i >= 2
  LET e == T.ev[i]  p == e.pre  z == Q(i)
      fin == RFin(e.f)
      r == IF RatioSeen(i) THEN Ratio(i) ELSE RatioOf(p.f, e.f, z.aug, z.q)
      acc == Accepts(fin, r)
      fref == IF acc THEN e.f ELSE p.f
      gn == VNorm(IF acc THEN e.g ELSE p.g)
      thr == RAdd(Opt(cfg, "fatol"), RMul(Opt(cfg, "frtol"), RAbs(p.f)))
      df == RAbs(RSub(e.f, p.f))
      gt(b) == IF REq(gn, "0") /\ RLe("0", b) THEN "yes" ELSE Cmp3(gn, b, RMul(RelTol, b))
      ga == gt(Opt(cfg, "gatol"))
      gr == gt(RMul(Opt(cfg, "grtol"), RAbs(fref)))
      xt == Opt(cfg, "xtol")
  IN [c \in {"FTOL", "XTOL", "GTOL"} |->
      CASE c = "FTOL" -> IF ~fin \/ ~RLt(Opt(cfg, "mu"), r) \/ REq(thr, "0") THEN "no"
                         ELSE Cmp3(df, thr, RAdd(RMul("1E-15", RAbs(p.f)), RMul(RelTol, thr)))
        [] c = "XTOL" -> IF i - 1 <= 1 \/ REq(xt, "0") THEN "no"
                         ELSE IF z.deg THEN "maybe"
                         ELSE Cmp3(z.len, xt, RAdd(z.lenTol, RMul(RelTol, xt)))
        [] c = "GTOL" -> IF ga = "yes" \/ gr = "yes" THEN "yes"
                         ELSE IF ga = "maybe" \/ gr = "maybe" THEN "maybe" ELSE "no"]
Limit3(i, n) ==  \* after evaluation i >= 1, iteration number i - 1
  LET k == i - 1
      delta == Post(i).delta
      mt == Opt(cfg, "maxtime")
      el == n.el
      rem == RSub(mt, el)
      avg == RDiv(el, RInt(IF k = 0 THEN 1 ELSE k))
  IN [c \in {"MAXITER", "MAXTIME", "DELTA_TOO_SMALL"} |->
      CASE c = "MAXITER" -> IF MaxIterHolds(cfg, k) THEN "yes" ELSE "no"
        [] c = "MAXTIME" -> IF mt = "inf" THEN "no"
                            ELSE IF ~cfg.clock THEN "maybe"
                            ELSE IF REq(rem, avg) THEN "no"
                            ELSE Cmp3(rem, avg, RMul("1E-9", avg))
        [] c = "DELTA_TOO_SMALL" -> IF TinyDelta(delta) THEN "yes" ELSE "no"]

StopClauses(i, n) ==
  LET lim == Limit3(i, n)
      crit == IF i = 1 THEN [c \in {"FTOL", "XTOL", "GTOL"} |-> "no"] ELSE Crit3(i)
      last == i = N
      c == FlagName(T.end.flag)
      conv == c \in Positive
      budget == lim["MAXITER"] # "yes" /\ lim["MAXTIME"] # "yes"
  IN IF ~last
     THEN <<
       <<"C05.prompt", \A k \in DOMAIN crit : crit[k] # "yes">>,
       <<"C05.limits", \A k \in DOMAIN lim : lim[k] # "yes">>,
       <<"C07.budget", budget>>,
       <<"C07.maxiter", lim["MAXITER"] # "yes">> >>
     ELSE <<
       <<"C05.flag", IF conv THEN crit[c] # "no"
                     ELSE c \in DOMAIN lim /\ lim[c] # "no"
                          /\ \A k \in DOMAIN crit : crit[k] # "yes">>,
       <<"C05.converged", T.end.conv <=> conv>>,
       <<"C07.flag", c \in DOMAIN lim => lim[c] # "no">>,
       <<"C07.flag2", ~conv => c \in DOMAIN lim>>,
       <<"C07.count", T.end.iter = N - 1>>,
       <<"C07.limit", RLe(RInt(N - 1), Opt(cfg, "maxiter"))>>,
       <<"C03.return", /\ REqN(T.end.ret.f, T.end.post.f) /\ VEq(T.end.ret.x, T.end.post.x)
                       /\ VEq(T.end.ret.g, T.end.post.g)
                       /\ REqN(T.end.ret.f, T.ev[n.cur].f) /\ VEq(T.end.ret.g, T.ev[n.cur].g)
                       /\ Nudged(T.ev[n.cur].x, T.end.ret.x, cfg.lb, cfg.ub)
                       /\ (Exact => MEq(T.end.ret.h, T.ev[n.cur].h))>>,
       <<"C15.return", /\ MEq(T.end.ret.h, T.end.post.h)
                       /\ (Exact => MEq(T.end.ret.h, T.ev[n.cur].h))>>,
       <<"C01.return", InBox(T.end.ret.x, cfg.lb, cfg.ub)>>,
       <<"C02.return", RLe(T.end.post.fmin, T.end.ret.f)>>
     >>

(* a run that raised after evaluation i = N                                    *)
RaiseClauses(i) ==
  LET e == T.ev[i]
      bad == IF i = 1 THEN BadVal(e) \/ BadDer(e) ELSE RFin(e.f) /\ BadDer(e)
      hesslost == Has(T.end, "post") /\ ~MFin(T.end.post.h) /\ ~Exact
      known == Has(T.end, "post")
      o == T.end.post
  IN <<
    <<"C06.raise", (bad \/ hesslost) => T.end.exc = "RuntimeError" /\ FlagIs("NOT_FINITE")>>,
    <<"C05.raise", known => IF bad \/ hesslost THEN FlagIs("NOT_FINITE")
                            ELSE T.end.flag <= 0>>,
    <<"C06.goeson", (~bad /\ ~RFin(e.f)) => FALSE>>,
    <<"C01.abort", ~(known /\ FlagIs("EXCEEDED_BOUNDARY"))>>,
    <<"crash", bad \/ hesslost>>,
    <<"C14.finite", bad \/ ~hesslost>>, <<"C13.finite", bad \/ ~hesslost>>,
    <<"C06.lost", (bad /\ i > 1 /\ known) =>
        /\ VEq(o.x, e.pre.x) /\ REq(o.f, e.pre.f) /\ VFin(o.x) /\ RFin(o.delta)
        /\ RFin(o.fmin) /\ VFin(o.xmin) /\ MEq(o.h, e.pre.h)>>,
    <<"C02.raise", (known /\ i > 1) => /\ \/ REq(o.fmin, m.fmin)
                                          \/ REqN(o.fmin, RMin(m.fmin, e.f))>>
  >>

(* ------------------------- clauses: history file ------------------------- *)
(* T.hist: quantity -> sequence with one entry per iteration                   *)
HistNear(a, b, rel, ab) == (RIsNan(a) /\ RIsNan(b)) \/ REq(a, b) \/
   RNear(a, b, RAdd(ab, RMul(rel, RMax(RAbs(a), RAbs(b)))))
Shifted(M, c) == MSub(MDbl(M), MScl(c, MEye(cfg.n)))
MNeg(M) == MScl("-1", M)
\* lo and hi are the smallest and largest eigenvalue of the symmetric matrix M
Extremes(M, lo, hi, tol) ==
  /\ RFin(lo) /\ RFin(hi)
  /\ MPsd(Shifted(M, RSub(lo, tol))) /\ ~MPsd(Shifted(M, RAdd(lo, RAdd(tol, "1E-300"))))
  /\ MPsd(MNeg(Shifted(M, RAdd(hi, tol)))) /\ ~MPsd(MNeg(Shifted(M, RSub(hi, RAdd(tol, "1E-300")))))
UpdateEvs(lo, hi, moved, applies, D, tol) ==
  IF ~applies THEN RIsNan(lo) /\ RIsNan(hi)
  ELSE IF ~moved THEN REq(lo, "0") /\ REq(hi, "0") ELSE Extremes(D, lo, hi, tol)
\* largest eigenvalue of a positive semidefinite matrix, by bisection
LargestEv(M) ==
  LET RECURSIVE go(_, _, _)
      go(lo, hi, j) == IF j = 0 THEN hi
        ELSE LET mid == RHalf(RAdd(lo, hi))
             IN IF MPsd(MSub(MScl(mid, MEye(cfg.n)), M)) THEN go(lo, mid, j - 1) ELSE go(mid, hi, j - 1)
      RECURSIVE tr(_)
      tr(j) == IF j = 0 THEN "0" ELSE RAdd(M[j][j], tr(j - 1))
  IN go("0", tr(cfg.n), 24)
\* ratio of the extreme singular values, if it is resolvable
MSquare(M) == [a \in DOMAIN M |-> MV(M, M[a])]
Condition(M, c) ==
  LET sq == MSquare(MDbl(M))
      top == MMax(sq)
  IN IF ~RFin(c) \/ RLt("1E6", c) \/ REq(top, "0") THEN TRUE
     ELSE LET u == RSqrt(LargestEv(sq))
            a == RSq(RDiv(u, RMul(c, "1.00001")))
            b == RSq(RDiv(u, RMul(c, "0.99999")))
          IN MPsd(MSub(sq, MScl(a, MEye(cfg.n)))) /\ ~MPsd(MSub(sq, MScl(b, MEye(cfg.n))))
HistClauses(i, n) ==
  LET H == T.hist  k == i - 1
      e == T.ev[i]  p == e.pre  o == Post(i)  z == Q(i)
      moved == Moved(i)
      f(nm) == Has(H, nm) => Len(H[nm]) >= k
  IN <<
   <<"C16.fval", Has(H, "fval") /\ Len(H.fval) >= k /\ REqN(H.fval[k], e.f)>>,
   <<"C16.ratio", f("tr_ratio") /\ Has(H, "tr_ratio")
                  /\ (RatioSeen(i) => REqN(H.tr_ratio[k], o.ratio))>>,
   <<"C16.radius", Has(H, "tr_radius") /\ f("tr_radius") /\ REq(H.tr_radius[k], p.delta)>>,
   <<"C16.grad", Has(H, "normgrad") /\ f("normgrad")
                 /\ HistNear(H.normgrad[k], VNorm(o.g), "1E-12", "0")>>,
   <<"C16.step", Has(H, "normstep") /\ f("normstep")
                 /\ HistNear(H.normstep[k], VNorm(z.s), "1E-12", VNorm(z.ds))>>,
   <<"C16.accept", Has(H, "accept") /\ f("accept") /\ H.accept[k] = (IF moved THEN "1.0" ELSE "0")>>,
   <<"C16.type", Has(H, "step_type") /\ f("step_type") /\ H.step_type[k] \in
        (CASE Solver = "2D" -> {"2d"} [] Solver = "full" -> {"nd"} [] OTHER -> {"cgs"})
        \cup {"g"}
        \cup (IF Strategy \in {"reflect", "reflect_single", "mixed"} THEN {"trr"} ELSE {})
        \cup (IF Strategy \in {"truncate", "mixed"} THEN {"trt"} ELSE {})
        \cup (IF Strategy = "refine" THEN {"ref"} ELSE {})>>,
   <<"C16.counts", Has(H, "reflections") /\ Has(H, "truncations") /\ Has(H, "step_type")
        /\ f("reflections") /\ f("truncations") =>
        /\ (H.step_type[k] = "trr" <=> H.reflections[k] # "0")
        /\ (H.step_type[k] = "trt" <=> H.truncations[k] # "0")
        \* variables that were truncated are left at the fraction of their distance
        /\ (H.step_type[k] = "trt" /\ Has(H, "alpha") /\ f("alpha") /\ REq(H.alpha[k], "1")) =>
             LET th == Theta(cfg, z.v, p.g)
                 room(j) == IF RLt("0", z.s[j]) THEN RSub(RDbl(cfg.ub[j]), RDbl(p.x[j]))
                            ELSE RSub(RDbl(p.x[j]), RDbl(cfg.lb[j]))
                 known(j) == ~RFin(room(j)) \/ RLt(RMul("1E6", z.ds[j]), room(j))
                 at(j) == RFin(room(j)) /\ RNear(RAbs(z.s[j]), RMul(th, room(j)),
                                            RAdd(RMul("1E-10", room(j)), z.ds[j]))
             IN (\A j \in 1..cfg.n : known(j)) =>
                  REq(H.truncations[k], RInt(Cardinality({j \in 1..cfg.n : at(j)})))>>,
   <<"C16.since", Has(H, "iterations_since_tr_update") =>
        f("iterations_since_tr_update") /\
        (z.deg \/ H.iterations_since_tr_update[k] = IF n.since = 0 THEN "0" ELSE RInt(n.since) \o ".0")>>,
   <<"C16.theta", Has(H, "theta") => f("theta")
        /\ HistNear(H.theta[k], Theta(cfg, z.v, p.g), "1E-12", "1E-12")>>,
   <<"C16.evals", Symm =>
        /\ Has(H, "hess_min_ev") /\ Has(H, "hess_max_ev")
        /\ f("hess_min_ev") /\ f("hess_max_ev")
        /\ Extremes(o.h, H.hess_min_ev[k], H.hess_max_ev[k], RMul("1E-9", MMax(o.h)))>>,
   <<"C16.update", Symm =>
        /\ Has(H, "hess_update_min_ev") /\ f("hess_update_min_ev")
        /\ Has(H, "hess_update_max_ev") /\ f("hess_update_max_ev")
        /\ UpdateEvs(H.hess_update_min_ev[k], H.hess_update_max_ev[k], moved, ~Exact,
                     MSub(MDbl(o.h), MDbl(p.h)), RMul("1E-9", RAdd(MMax(o.h), MMax(p.h))))>>,
   <<"C16.supdate",
        /\ Has(H, "hess_struct_update_min_ev") /\ f("hess_struct_update_min_ev")
        /\ Has(H, "hess_struct_update_max_ev") /\ f("hess_struct_update_max_ev")
        /\ (Has(o, "A") =>
             UpdateEvs(H.hess_struct_update_min_ev[k], H.hess_struct_update_max_ev[k], moved, TRUE,
                       MSub(MDbl(o.A), MDbl(p.A)), RMul("1E-9", RAdd(MMax(o.A), MMax(p.A)))))
        /\ (~Has(o, "A") => RIsNan(H.hess_struct_update_min_ev[k]) /\ RIsNan(H.hess_struct_update_max_ev[k]))>>,
   <<"C16.cond", (Symm /\ Has(H, "cond_hess")) => f("cond_hess") /\ Condition(o.h, H.cond_hess[k])>>,
   <<"C16.condscaled", (Symm /\ Has(H, "cond_shess")) => f("cond_shess")
        /\ (z.deg \/ Condition(ScaledHess(p, z), H.cond_shess[k]))>>,
   \* what is said about the model, where rounding does not decide it
   <<"C16.posdef", (Symm /\ Has(H, "posdef") /\ Has(H, "step_type")) => f("posdef") /\
        LET b == ScaledHess(p, z) IN
        IF H.step_type[k] # "2d" THEN H.posdef[k] = "0"
        ELSE /\ Convex(b, "1E-6") => H.posdef[k] # "0"
             /\ NonConvex(b, "1E-6") => H.posdef[k] = "0">>,
   <<"C16.newton", (Symm /\ Has(H, "newton") /\ Has(H, "step_type")) => f("newton") /\
        LET b == ScaledHess(p, z)
            sg == [j \in 1..cfg.n |-> RMul(RSqrt(RAbs(z.v[j])), p.g[j])]
            len == VNorm(Newton(b, sg))
        IN IF H.step_type[k] # "2d" \/ cfg.n = 1 THEN H.newton[k] = "0"
           ELSE /\ (Convex(b, "1E-6") /\ RLt(len, RMul("0.9999", p.delta))) => H.newton[k] # "0"
                /\ (Convex(b, "1E-6") /\ RLt(RMul("1.0001", p.delta), len)) => H.newton[k] = "0"
                /\ NonConvex(b, "1E-6") => H.newton[k] = "0">>,
   \* what the step says about itself, where it says so (see C16.counts of StepTrace)
   <<"C16.said", Has(p, "tstep") => \A nm \in DOMAIN p.tstep :
        Has(H, nm) => /\ f(nm)
                      /\ IF nm = "step_type" THEN H[nm][k] = p.tstep[nm]
                         ELSE REqN(H[nm][k], p.tstep[nm])>>,
   <<"C16.alpha", (Has(H, "alpha") /\ Has(H, "step_type")) => f("alpha")
        /\ RLe("-1E-9", H.alpha[k]) /\ RLe(H.alpha[k], "1")>>,
   <<"C16.dim", (Has(H, "subspace_dim") /\ Has(H, "step_type")) => f("subspace_dim")
        /\ RLe("1", H.subspace_dim[k])
        /\ RLe(H.subspace_dim[k], IF H.step_type[k] = "2d" THEN "2" ELSE RInt(cfg.n))
        /\ (H.step_type[k] \in {"g", "trr"} => REq(H.subspace_dim[k], "1"))>>
  >>
(* -------------------------- clauses: progress log ------------------------ *)
(* e.log: the lines printed after evaluation e and before the next one; a      *)
(* number is its printed value v and one unit u of its last printed place.     *)
Printed(p, v, tol) ==
  IF ~RFin(v) THEN REqN(p.v, v)
  ELSE RFin(p.v) /\ RNear(p.v, v, RAdd(tol, RMul("0.500001", p.u)))
Blank(p) == RIsNan(p.v)
Rows(e) == SelectSeq(e.log, LAMBDA r : r.kind = "row")
Ends(e) == SelectSeq(e.log, LAMBDA r : r.kind = "end")
Verbose(level) == T.verbose <= level
INFO == 20
WARNING == 30
RowTypes ==
  (CASE Solver = "2D" -> {"2d"} [] Solver = "full" -> {"nd"} [] OTHER -> {"cgs"})
  \cup {"g"}
  \cup (IF Strategy \in {"reflect", "reflect_single", "mixed"} THEN {"trr"} ELSE {})
  \cup (IF Strategy \in {"truncate", "mixed"} THEN {"trt"} ELSE {})
  \cup (IF Strategy = "refine" THEN {"ref"} ELSE {})
StartRow(r) ==
  LET e == T.ev[1] IN <<
   <<"C20.iteration", r.iter = 0>>,
   <<"C20.value", Printed(r.f, e.f, "0") /\ Blank(r.df) /\ Blank(r.ratio) /\ Blank(r.s)>>,
   <<"C20.radius", Printed(r.delta, Opt(cfg, "delta_init"), "0")>>,
   <<"C20.gradient", VFin(e.g) => Printed(r.g, VNorm(e.g), RMul("1E-12", VNorm(e.g)))>>,
   <<"C20.accepted", r.acc = IF RFin(e.f) THEN "1" ELSE "0">> >>
StepRow(i, r) ==
  LET e == T.ev[i]  p == e.pre  o == Post(i)  z == Q(i)
      moved == Moved(i)
      sn == VNorm(z.s)
  IN <<
   <<"C20.iteration", r.iter = i - 1>>,
   <<"C20.value", Printed(r.f, o.f, "0")>>,
   <<"C20.change", Printed(r.df, IF RFin(e.f) THEN RSub(RDbl(e.f), RDbl(p.f)) ELSE "0",
        IF RFin(e.f) THEN RMul("1E-15", RAdd(RAbs(e.f), RAbs(p.f))) ELSE "0")>>,
   <<"C20.ratio", RatioSeen(i) => Printed(r.ratio, o.ratio, "0")>>,
   <<"C20.radius", Printed(r.delta, p.delta, "0")>>,
   <<"C20.gradient", Printed(r.g, VNorm(p.g), RMul("1E-12", VNorm(p.g)))>>,
   <<"C20.step", Printed(r.s, sn, RAdd(RMul("1E-12", sn), VNorm(z.ds)))>>,
   <<"C20.type", r.type \in RowTypes>>,
   <<"C20.accepted", r.acc = IF moved THEN "1" ELSE "0">> >>
\* the number that the final message names
EndNumber(i, c, x) ==
  LET e == T.ev[i]  p == e.pre  o == Post(i) IN
  CASE c = "FTOL" -> Printed(x, RAbs(RSub(RDbl(e.f), RDbl(p.f))), RMul("1E-15", RAdd(RAbs(e.f), RAbs(p.f))))
    [] c = "XTOL" -> LET z == Q(i) IN z.deg \/ Printed(x, z.len, RAdd(z.lenTol, RMul("1E-12", z.len)))
    [] c = "GTOL" -> Printed(x, VNorm(o.g), RMul("1E-12", VNorm(o.g)))
    [] c = "MAXITER" -> Printed(x, Opt(cfg, "maxiter"), "0")
    [] c = "MAXTIME" -> Printed(x, Opt(cfg, "maxtime"), "0")
    [] c = "DELTA_TOO_SMALL" -> Printed(x, o.delta, "0")
LogClauses(i) ==
  LET e == T.ev[i]
      rows == Rows(e)  ends == Ends(e)
      known == i = 1 \/ PostKnown(i)
      last == i = N
      flag == FlagName(T.end.flag)
      shown == Verbose(IF flag \in Positive THEN INFO ELSE WARNING)
  IN (IF ~Verbose(INFO) THEN <<<<"C20.quiet", \A j \in DOMAIN e.log :
                               e.log[j].kind = "end" /\ e.log[j].level # "INFO" /\ Verbose(WARNING)>>>>
      ELSE IF ~known THEN <<<<"C20.rows", rows = <<>>>>>>
      ELSE << <<"C20.rows", Len(rows) = 1>>,
              <<"C20.order", Len(e.log) > 0 /\
                  \A j, k \in DOMAIN e.log : (e.log[j].kind = "row" /\ e.log[k].kind = "end") => j < k>>,
              <<"C20.header", i = 1 => \E j, k \in DOMAIN e.log :
                  j < k /\ e.log[j].kind = "header" /\ e.log[k].kind = "row">> >>
           \o (IF rows = <<>> THEN <<>> ELSE IF i = 1 THEN StartRow(rows[1]) ELSE StepRow(i, rows[1])))
     \o (IF ~(last /\ Returned) THEN <<<<"C20.end", ends = <<>>>>>>
         ELSE << <<"C20.end", Len(ends) = (IF shown THEN 1 ELSE 0) /\
                    (ends # <<>> => /\ ends[1].crit = flag
                                    /\ ends[1].level = IF flag \in Positive THEN "INFO" ELSE "WARNING")>>,
                 <<"C20.reason", (Len(ends) = 1 /\ ends[1].crit = flag) =>
                    EndNumber(i, flag, ends[1].num)>> >>)

HistShape ==
  <<"C16.length", \A nm \in DOMAIN T.hist : Len(T.hist[nm]) = N - 1>>

\* the file holds the record of this run, if and only if the run returned
GroupClauses ==
  IF ~Has(T, "groups") THEN <<>>
  ELSE << <<"C16.group", T.groups = IF Ended = "return" THEN <<T.start_id>> ELSE <<>> >>,
          <<"C16.empty", (Ended = "return" /\ N > 1) => Has(T, "hist") /\ DOMAIN T.hist # {}>> >>

(* ------------------------------------------------------------------------ *)
\* n is the memory after evaluation i
Clauses(i, n) ==
  (IF i = N THEN GroupClauses ELSE <<>>) \o
  (IF Has(T.ev[i], "log") THEN LogClauses(i) ELSE <<>>) \o
  IF i = 1
  THEN StartClauses
       \o (IF PostKnown(1) THEN StopClauses(1, n) ELSE <<>>)
       \o (IF N = 1 /\ Ended = "raise" THEN RaiseClauses(1) ELSE <<>>)
       \o (IF Has(T, "hist") THEN <<HistShape>> ELSE <<>>)
  ELSE ValueClauses(i)
       \o (IF PostKnown(i)
           THEN OutcomeClauses(i) \o StopClauses(i, n)
                \o (IF ~Exact /\ Moved(i) THEN HessClauses(i) ELSE <<>>)
                \o (IF Has(T, "hist") THEN HistClauses(i, n) ELSE <<>>)
           ELSE IF Ended = "raise" THEN RaiseClauses(i) ELSE <<>>)

(* a run without any evaluation must have been refused for its starting point *)
NoEvalClauses ==
  LET refused == ~VFin(cfg.x0) \/ ~InBox(cfg.x0, cfg.lb, cfg.ub)
  IN <<
   <<"C01.refuse", refused /\ Ended = "raise" /\ Has(T.end, "flag")
                   /\ FlagIs("EXCEEDED_BOUNDARY") /\ T.end.exc = "RuntimeError">>,
   <<"crash", refused>> >> \o GroupClauses

Fails(cl) == SelectSeq(cl, LAMBDA c : ~c[2])
Report(i, cl) ==
  LET f == Fails(cl) IN
  IF f = <<>> THEN TRUE
  ELSE PrintT("@@" \o ToJson([t |-> t, l |-> i, f |-> [j \in DOMAIN f |-> f[j][1]]]))

(* ------------------------------ transitions ------------------------------ *)
\* memory before event l: cur is the evaluation the iterate stems from, fmin the
\* best value so far, since/mid the counters the hybrid schemes depend on, sw
\* whether the hybrid scheme has switched, el the elapsed (simulated) time.
Elapsed(i) == IF Has(T.ev[i], "dt") THEN T.ev[i].dt ELSE "0"
Start == [cur |-> 1, fmin |-> "inf", since |-> 0, mid |-> 0, sw |-> FALSE,
          el |-> "0"]

Init == /\ t \in 1..NT
        /\ l = 1
        /\ m = Start

SeenKind(i) ==
  LET z == Q(i)
      r == IF RatioSeen(i) THEN Ratio(i) ELSE RatioOf(T.ev[i].pre.f, T.ev[i].f, z.aug, z.q)
      d == Post(i).delta   d0 == T.ev[i].pre.delta
      ks == Kinds(i, z, r)
  IN IF Cardinality(ks) = 1 THEN CHOOSE k \in ks : TRUE
     ELSE IF RLt(d0, d) THEN "grow" ELSE IF RLt(d, d0) THEN "shrink"
     ELSE IF RLt(r, Opt(cfg, "eta")) THEN "mid" ELSE "keep"
Counters(i) ==
  LET k == SeenKind(i) IN
  [m EXCEPT !.since = IF k \in {"grow", "shrink"} THEN 0 ELSE m.since + 1,
            !.mid = IF k = "mid" THEN m.mid + 1 ELSE m.mid]
\* state of the hybrid switch after an accepted iteration
SwitchNext(mm, i) ==
  CASE Sch.name = "HybridFixed" -> mm.sw \/ mm.since >= Sch.switch_iteration
    [] Sch.name = "HybridFraction" ->
         mm.sw \/ (i - 1 > 25 /\ RLt(Sch.switch_threshold,
                                     RDiv(RInt(mm.mid), RInt(i - 1))))
    [] OTHER -> FALSE

\* memory after evaluation i
After(i) ==
  LET known == i > 1 /\ PostKnown(i)
      c == IF known THEN Counters(i) ELSE m
      moved == known /\ Moved(i)
  IN [c EXCEPT !.el = RAdd(m.el, Elapsed(i)),
               !.cur = IF moved THEN i ELSE m.cur,
               !.fmin = IF RFin(T.ev[i].f) THEN RMin(m.fmin, T.ev[i].f) ELSE m.fmin,
               !.sw = IF moved THEN SwitchNext(c, i) ELSE m.sw]

Evaluate ==
  /\ l <= N
  /\ LET n == After(l) IN /\ Report(l, Clauses(l, n))
                         /\ m' = n
  /\ l' = l + 1
  /\ UNCHANGED t

\* the end of a run that never evaluated its objective
Refused ==
  /\ N = 0 /\ l = 1
  /\ Report(0, NoEvalClauses)
  /\ l' = 2
  /\ UNCHANGED <<t, m>>

Next == Evaluate \/ Refused
Spec == Init /\ [][Next]_vars

\* every event of every trace has been judged: one state per event plus the start
AllSteps ==
  LET RECURSIVE sum(_) sum(i) == IF i = 0 THEN 0
        ELSE (IF Len(Traces[i].ev) = 0 THEN 1 ELSE Len(Traces[i].ev)) + 1 + sum(i - 1)
  IN sum(NT)
Complete == TLCGet("stats").distinct = AllSteps
=============================================================================
