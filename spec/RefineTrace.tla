---------------------------- MODULE RefineTrace ----------------------------
(* The refined candidate minimizes the model in the subspace of the trust     *)
(* region step, within the trust region and the fraction of the distances to  *)
(* the bounds.  Each case comes with the coefficients w of a point found by    *)
(* another method; if the specification confirms that it is such a point, the *)
(* refined candidate must not be worse.  As the refinement is iterative and   *)
(* limited to a hundred iterations, an eighth of the cases may fail.            *)
EXTENDS StepCase

VARIABLES worse,     \* cases in which the refined candidate is worse
          total,     \* cases with a permitted point
          back       \* cases in which the refined candidate had to be stepped back
Ref == SelectSeq(C.cands, LAMBDA c : c.type = "ref")[1]
Point == LET M == Cols(C.cands[1].sub, C.cands[1].dim)
             RECURSIVE go(_) go(a) == IF a = 0 THEN VZero(N) ELSE VAdd(go(a - 1), VScl(RDbl(C.w[a]), M[a]))
         IN go(C.cands[1].dim)
More == "1.0000001"
Allowed(p) == /\ RLe(VNorm(p), RMul(More, Delta))
              /\ \A j \in 1..N : LET s == RMul(D[j], p[j]) IN
                   RLe(RAbs(s), RMul(RMul(Th, More), IF RLt("0", s) THEN RSub(Ub[j], X[j]) ELSE RSub(X[j], Lb[j])))
TotalOf(c) == VAdd(VDbl(c.ss), VDbl(c.ss0))
Usable == C.w # <<>> /\ VFin(C.w) /\ VFin(C.cands[1].ss) /\ VFin(Ref.ss) /\ Allowed(Point)
Worse == LET v == Value(B, SG, Point) IN
         RLt(RAdd(RMul("0.99", v), QTol(Point)), Value(B, SG, TotalOf(Ref)))

Few(m) == total < 30 \/ 8 * m <= total
Init == i = 1 /\ k = 0 /\ worse = 0 /\ total = 0 /\ back = 0
Next == \/ /\ i <= Len(Cases)
           /\ i' = i + 1 /\ k' = k
           /\ total' = total + (IF Usable THEN 1 ELSE 0)
           /\ worse' = worse + (IF Usable /\ Worse THEN 1 ELSE 0)
           /\ back' = back + (IF Usable /\ RLt(Ref.alpha, "0.999999") THEN 1 ELSE 0)
        \/ /\ i = Len(Cases) + 1 /\ k = 0
           /\ k' = 1 /\ UNCHANGED <<i, worse, total, back>>
           /\ PrintT("@@" \o ToJson([worse |-> worse, total |-> total, back |-> back,
                                     ok |-> Few(worse) /\ Few(back)]))
Spec == Init /\ [][Next]_<<i, k, worse, total, back>>
Complete == TLCGet("stats").distinct = Len(Cases) + 2
=============================================================================
