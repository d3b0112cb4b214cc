----------------------------- MODULE Subproblem ----------------------------
(* Trust-region subproblems: minimize q(s) = g's + s'Bs/2 subject to         *)
(* |s| <= delta.  Judges recorded solutions by certificates of global         *)
(* optimality (n dimensions) and by the exact solution (one dimension).       *)
EXTENDS StepRules, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
NdClauses(k) ==
  LET B == MDbl(k.B)  g == VDbl(k.g)  s == IF VFin(k.s) THEN VDbl(k.s) ELSE k.s IN
  <<<<"C09.finite", VFin(k.s)>>,
    <<"C09.radius", VFin(k.s) => Within(s, k.delta)>>,
    <<"C09.optimal", VFin(k.s) => Certified(B, g, s, k.delta)>>,
    \* no worse than the steepest descent step of full length or any probe
    <<"C09.probe", VFin(k.s) => \A i \in DOMAIN k.probes :
         RLe(Value(B, g, s), RAdd(Value(B, g, VDbl(k.probes[i])), Tolerance(B, g, s, k.delta)))>>
  >>
(* a case constructed from its solution (KKT.tla) with value k.best           *)
KktClauses(k) ==
  LET B == MDbl(k.B)  g == VDbl(k.g)  s == IF VFin(k.s) THEN VDbl(k.s) ELSE k.s IN
  <<<<"C09.finite", VFin(k.s)>>,
    <<"C09.radius", VFin(k.s) => Within(s, k.delta)>>,
    <<"C09.kkt", VFin(k.s) =>
       RLe(Value(B, g, s), RAdd(k.best, RAdd(RMul(Slack, RAbs(k.best)),
           RMul("1E-12", RAdd(RMul(MMax(B), RSq(k.delta)), RMul(VNorm(g), k.delta))))))>>
  >>

(* ------------------------------ one dimension ---------------------------- *)
LineClauses(k) ==
  LET B == MDbl(k.B)  g == VDbl(k.g)  d == VDbl(k.d)  s0 == VDbl(k.s0)
      zero == REq(k.delta, "0") \/ REq(VDot(d, d), "0")
      x == Line(B, g, d, k.delta, s0)
      \* the radius is only known up to rounding errors, which matters if the
      \* reference point is on the boundary and the direction tangential
      y == Line(B, g, d, RMul(k.delta, "0.9999999999999"), s0)
      tau == RDbl(k.tau)
      sn == VNorm(VAdd(s0, VScl(tau, d)))
      w == RSub(x.hi, x.lo)
      val == RAdd(RMul(x.slope, tau), RHalf(RMul(x.cur, RSq(tau))))
      tol == RAdd(RMul(Slack, RAbs(x.best)),
             RMul("1E-12", RAdd(RMul(MMax(B), RSq(k.delta)), RMul(VNorm(g), k.delta))))
  IN <<<<"C10.finite", RFin(k.tau)>>,
       <<"C10.zero", zero => REq(k.tau, "0")>>,
       <<"C10.radius", (RFin(k.tau) /\ ~zero) =>
            RLe(sn, RMul(RMax(k.delta, VNorm(s0)), "1.00000001"))>>,
       <<"C10.optimal", (RFin(k.tau) /\ ~zero) => RLe(val, RAdd(RMax(x.best, y.best), tol))>>
     >>

(* ------------------------------------------------------------------------ *)
Clauses(k) == CASE k.kind = "nd" -> NdClauses(k) [] k.kind = "kkt" -> KktClauses(k)
                [] k.kind = "1d" -> LineClauses(k)
VARIABLES i, judged
Init == i \in DOMAIN Cases /\ judged = FALSE
Next == /\ ~judged
        /\ judged' = TRUE
        /\ i' = i
        /\ LET cl == Clauses(Cases[i])
               f == SelectSeq(cl, LAMBDA c : ~c[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_<<i, judged>>
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
