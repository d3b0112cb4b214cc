----------------------------- MODULE SolverTrace ---------------------------
(* Judges the trust-region step (before any step-back) of recorded calls of   *)
(* the step computation against the solver that was selected (C21).           *)
EXTENDS StepCase, SolverRules

Known == Has(C, "base") /\ VFin(C.base)
Close(p, s, share) == \A j \in 1..N : RNear(p[j], s[j], RMul(share, VNorm(s)))

FullClauses(b, g, p) ==
  <<<<"C21.full", OptimalIn(b, g, Delta, p, MEye(N))>>>>

CgClauses(b, g, p) ==
  LET st == Steihaug(b, g, Delta)
      res == VNorm(VAdd(MV(b, p), g))
  IN <<
   \* at least as good as steepest descent
   <<"C21.cauchy", RLe(Value(b, g, p), RAdd(RMul("0.999999", SteepestDescent(b, g, Delta)), QTol(p)))>>,
   \* ends on the boundary or once the residual is small enough
   <<"C21.residual", \/ RLe(RMul("0.999999", Delta), VNorm(p))
                     \/ RLe(res, RMul(CgTol(g), "1.0001"))
                     \/ ~Convex(b, "1E-5")>>,
   <<"C21.steihaug", (st.end # "" /\ st.clear) => Close(p, st.s, "1E-6")>>
  >>

TwoClauses(b, g, p) ==
  IF Convex(b, "1E-6") THEN
    LET s == Newton(b, g)
        nn == VNorm(s)
        M == Basis(s, g)
    IN IF RLe(nn, RMul("0.999999", Delta)) THEN
         <<<<"C21.newton", Close(p, s, "1E-6")>>>>
       ELSE IF RLe(RMul("1.000001", Delta), nn) THEN
         <<<<"C21.plane", Len(M) = 1 \/ RLt(Sine(s, g), "1E-5") \/ RLe(Outside(p, M), RMul("1E-7", VNorm(p)))>>,
           <<"C21.best", RLe(RMul("0.000001", nn), Delta) =>
               (Len(M) = 1 \/ RLt(Sine(s, g), "1E-5") \/ OptimalIn(b, g, Delta, p, M))>>,
           <<"C21.cauchy", RLe(Value(b, g, p), RAdd(RMul("0.999999", SteepestDescent(b, g, Delta)), QTol(p)))>>>>
       ELSE <<>>
  ELSE IF NonConvex(b, "1E-3") THEN
    LET w == Unit(VDbl(C.wit))
        rho == QF(b, w)
        resid == VNorm(VSub(MV(b, w), VScl(rho, w)))
        e == VMul(D, [j \in 1..N |-> IF RLe("0", SG[j]) THEN "1" ELSE "-1"])
        \* the lowest eigenvalue is simple
        simple == /\ RLe(resid, RMul("1E-10", MMax(b)))
                  /\ MPsd(MAdd(Shift(b, RNeg(RAdd(rho, RMul("1E-3", MMax(b))))),
                               MScl(RMul("100", RMul(RInt(N), MMax(b))), MOuter(w, w))))
        M == Basis(w, e)
        known == simple /\ (N = 1 \/ (Len(M) = 2 /\ RLe("1E-4", Sine(w, e))))
    IN <<
     \* the decrease along the direction of most negative curvature
     <<"C21.curvature", RLe(Value(b, g, p), RAdd(RMul("0.999999", RHalf(RMul(rho, RSq(Delta)))), QTol(p)))>>,
     <<"C21.plane", known => RLe(Outside(p, M), RMul("1E-6", VNorm(p)))>>,
     <<"C21.best", known => OptimalIn(b, g, Delta, p, M)>>
    >>
  ELSE <<>>

Clauses ==
  IF ~Known \/ ~RLt("1E-200", VNorm(SG)) THEN <<>>
  ELSE LET b == B  g == SG  p == VDbl(C.base) IN
       <<<<"C21.region", Within(p, Delta)>>,
         <<"C21.descent", RLt(Value(b, g, p), QTol(p))>>>>
       \o (CASE C.solver = "full" -> FullClauses(b, g, p)
             [] C.solver = "scg" -> CgClauses(b, g, p)
             [] C.solver = "2D" -> TwoClauses(b, g, p)
             [] OTHER -> <<<<"C21.solver", FALSE>>>>)

Init == i \in DOMAIN Cases /\ k = 0
Next == /\ k = 0
        /\ k' = 1 /\ i' = i
        /\ LET f == SelectSeq(Clauses, LAMBDA c : ~c[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
