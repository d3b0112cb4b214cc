------------------------------ MODULE StepBack -----------------------------
(* The step-back procedure as a state machine in exact arithmetic: starting   *)
(* from the trust-region step of a convex model (all of R^n, so that it is     *)
(* the Newton step if that is inside the region), candidates are generated     *)
(* one after another according to the strategy, until one is chosen.  TLC      *)
(* explores every problem of the menu; each behaviour is replayed into the     *)
(* code (suite_step).  x is the origin, D the affine scaling.                  *)
EXTENDS StepRules, Json, IOUtils, TLC

Quick == IOEnv.QUICK = "1"
V(lo, hi, g) == [lo |-> lo, hi |-> hi, g |-> g]
Vars2 == {V("-1", "1", "-2"), V("-1", "1", "2"), V("-4", "1", "-8"), V("-1", "4", "-8"),
          V("-1", "4", "0.5"), V("-4", "1", "1"), V("-inf", "1", "-2"), V("-4", "inf", "-1"),
          V("-0.25", "0.25", "-2"), V("-0.25", "1", "8"), V("-inf", "inf", "-4"),
          V("-1", "1", "0")}
         \cup (IF Quick THEN {} ELSE
               {V("-1", "1", "-8"), V("-1", "1", "0.5"), V("-16", "0.25", "-1"),
                V("-0.0625", "4", "8"), V("-4", "4", "-16"), V("-1", "inf", "16")})
Vars3 == {V("-1", "1", "-2"), V("-1", "4", "-8"), V("-0.25", "1", "4"), V("-4", "inf", "-1")}
         \cup (IF Quick THEN {} ELSE {V("-1", "1", "2"), V("-0.25", "0.25", "-8"), V("-inf", "1", "0.5")})
H2 == {<<<<"1", "0">>, <<"0", "1">>>>, <<<<"4", "0">>, <<"0", "0.25">>>>,
       <<<<"2", "1">>, <<"1", "2">>>>, <<<<"1", "-0.75">>, <<"-0.75", "1">>>>}
      \cup (IF Quick THEN {} ELSE
            {<<<<"8", "2">>, <<"2", "1">>>>, <<<<"0.125", "0">>, <<"0", "0.125">>>>,
             <<<<"0.25", "0.2">>, <<"0.2", "0.25">>>>})
H3 == {MEye(3), <<<<"2", "1", "0">>, <<"1", "2", "-1">>, <<"0", "-1", "4">>>>}
      \cup (IF Quick THEN {} ELSE
            {MScl("0.125", MEye(3)), <<<<"0.5", "0.25", "0.25">>, <<"0.25", "0.5", "0.25">>, <<"0.25", "0.25", "1">>>>})
Deltas == {"3", "64"} \cup (IF Quick THEN {} ELSE {"6"})
Thetas == {"0.5", "0.875"} \cup (IF Quick THEN {} ELSE {"0.75"})
Strategies == {"reflect_single", "reflect", "truncate", "mixed"}

VARIABLES p,        \* the problem
          cands,    \* candidates so far
          phase     \* what comes next
vars == <<p, cands, phase>>

N == Len(p.g)
J == 1..N
X0 == VZero(N)
Bound(j) == IF RLt(p.g[j], "0") THEN p.ub[j] ELSE p.lb[j]
Dist == [j \in J |-> IF RFin(Bound(j)) THEN RAbs(Bound(j)) ELSE "1"]
Dv == [j \in J |-> IF RFin(Bound(j)) THEN "1" ELSE "0"]
D == [j \in J |-> RSqrt(Dist[j])]
SG == VMul(D, p.g)
B == [a \in J |-> [b \in J |-> RAdd(RMul(RMul(D[a], p.h[a][b]), D[b]),
                                    IF a = b THEN RMul(RAbs(p.g[a]), Dv[a]) ELSE "0")]]
Th == RMax(p.theta, RSub("1", VNormInf(VMul(Dist, p.g))))

(* ------------------------------ candidates ------------------------------- *)
Tie == "0.000000001"
Diagonal == \A a, b \in J : a = b \/ REq(p.h[a][b], "0")
\* variables of identical data: they hit at the same fraction also in floating point
Twins(a, b) == Diagonal /\ REq(RAbs(p.g[a]), RAbs(p.g[b])) /\ REq(p.h[a][a], p.h[b][b])
               /\ REq(Dist[a], Dist[b])
First(b) == {j \in J : RFin(b[j]) /\ RLe(b[j], RMul(MinOf(b), "1.000000001"))}
\* decisions that rounding errors could change, about which nothing is claimed
Unclear(b, base) ==
  \/ RNear(RMul(Th, MinOf(b)), "1", Tie) \/ RNear(MinOf(b), "1", Tie)
  \/ \E j, k \in First(b) : j # k /\ ~(base /\ Twins(j, k))
  \/ \E j \in J : RLt(b[j], Tie)
Cand(type, s0, ss0, ogs, dim, fr) ==
  LET og == VMul(D, ogs)
      b == Breaks(s0, og, p.lb, p.ub)
      al == IF \A j \in J : ~RFin(b[j]) THEN "1" ELSE Alpha(Th, b)
      tot == VAdd(ss0, VScl(al, ogs))
  IN [type |-> type, s0 |-> s0, ss0 |-> ss0, og |-> og, ogs |-> ogs, b |-> b, alpha |-> al,
      total |-> VAdd(s0, VScl(al, og)), totals |-> tot, q |-> Value(B, SG, tot), dim |-> dim,
      frozen |-> fr,
      unclear |-> (\E j \in J : RFin(b[j])) /\ Unclear(b, type = "nd")]
Newton == Solve(B, VScl("-1", SG))
Base == Cand("nd", X0, X0, Newton, N, {})
Gradient ==
  LET d == VScl("-1", SG) IN Cand("g", X0, X0, VScl(Line(B, SG, d, p.delta, X0).arg, d), 1, {})
Reflected(c) ==
  LET s0 == HitPoint(c.s0, c.og, c.b)
      ss0 == HitPoint(c.ss0, c.ogs, c.b)
      d == Turn(c.ogs, First(c.b))
  IN Cand("trr", s0, ss0, VScl(Line(B, SG, d, p.delta, ss0).arg, d), 1, {})
Truncated(c) ==
  LET F == c.frozen \cup First(c.b)
      free == J \ F
      k == Cardinality(free)
      s0 == Frozen(c.s0, c.og, c.b, Th, First(c.b))
      ss0 == Frozen(c.ss0, c.ogs, c.b, Th, First(c.b))
      g == VAdd(SG, MV(B, ss0))
      at == [a \in 1..k |-> CHOOSE j \in free : Cardinality({i \in free : i < j}) = a - 1]
      pos(j) == CHOOSE a \in 1..k : at[a] = j
      one == LET j == at[1] IN
             Line(B, SG, [i \in J |-> IF i = j THEN "1" ELSE "0"], p.delta, ss0).arg
      y == Solve([a \in 1..k |-> [b \in 1..k |-> B[at[a]][at[b]]]], [a \in 1..k |-> RNeg(g[at[a]])])
      sol == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<one>> ELSE y
      c2 == Cand("trt", s0, ss0, [j \in J |-> IF j \in free THEN sol[pos(j)] ELSE "0"], k, F)
      beyond == k > 1 /\ RLt(RMul("0.999999", RSub(RSq(p.delta), VDot(ss0, ss0))), VDot(y, y))
  IN [c2 EXCEPT !.unclear = @ \/ beyond]

(* ------------------------------ behaviours ------------------------------- *)
Problem(vs, h, de, th, st) ==
  [g |-> [j \in DOMAIN vs |-> vs[j].g], lb |-> [j \in DOMAIN vs |-> vs[j].lo],
   ub |-> [j \in DOMAIN vs |-> vs[j].hi], h |-> h, delta |-> de, theta |-> th, strategy |-> st]
Init ==
  /\ cands = <<>>
  /\ phase = "base"
  /\ \E de \in Deltas, th \in Thetas, st \in Strategies :
       \/ \E a, b \in Vars2, h \in H2 : p = Problem(<<a, b>>, h, de, th, st)
       \/ \E a, b, c \in Vars3, h \in H3 : p = Problem(<<a, b, c>>, h, de, th, st)
Last == cands[Len(cands)]
OfType(ty) == SelectSeq(cands, LAMBDA c : c.type = ty)
Unknown == cands # <<>> /\ Last.unclear
TakeBase ==
  /\ phase = "base"
  /\ ~REq(VNorm(SG), "0")
  /\ RLt(VNorm(Newton), RMul("0.999", p.delta))
  /\ cands' = <<Base>>
  /\ phase' = IF Base.unclear THEN "unclear" ELSE IF REq(Base.alpha, "1") THEN "choose" ELSE "gradient"
Add(c, next) ==
  /\ cands' = Append(cands, c)
  /\ phase' = IF c.unclear THEN "unclear" ELSE next
TakeGradient ==
  /\ phase = "gradient"
  /\ Add(Gradient, IF p.strategy = "truncate" THEN "truncate" ELSE "reflect")
AfterReflections == IF p.strategy = "mixed" THEN "truncate" ELSE "choose"
TakeReflected ==
  /\ phase = "reflect"
  /\ LET rs == OfType("trr")
         c == Reflected(IF rs = <<>> THEN cands[1] ELSE rs[Len(rs)])
     IN Add(c, IF p.strategy = "reflect_single" THEN "choose"
               ELSE IF REq(c.alpha, "1") \/ Len(rs) + 1 = N THEN AfterReflections ELSE "reflect")
TakeTruncated ==
  /\ phase = "truncate"
  /\ LET ts == OfType("trt")
         c == Truncated(IF ts = <<>> THEN cands[1] ELSE ts[Len(ts)])
     IN Add(c, IF REq(c.alpha, "1") \/ c.dim = 0 THEN "choose" ELSE "truncate")
Qs == [j \in DOMAIN cands |-> cands[j].q]
Lowest == MinOf(Qs)
Picks == {j \in DOMAIN cands : RLe(cands[j].q, RAdd(Lowest, RMul(Tie, RAbs(Lowest))))}
Choose_ ==
  /\ phase = "choose"
  /\ phase' = "done"
  /\ cands' = cands
  /\ PrintT("@@" \o ToJson([g |-> p.g, lb |-> p.lb, ub |-> p.ub, h |-> p.h, delta |-> p.delta,
                            theta |-> p.theta, strategy |-> p.strategy,
                            cands |-> [j \in DOMAIN cands |->
                               [type |-> cands[j].type, total |-> cands[j].total,
                                alpha |-> cands[j].alpha, dim |-> cands[j].dim]],
                            picks |-> Picks]))
Next == /\ UNCHANGED p
        /\ TakeBase \/ TakeGradient \/ TakeReflected \/ TakeTruncated \/ Choose_
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
Room(c, j) == IF RLt("0", c.total[j]) THEN p.ub[j] ELSE RNeg(p.lb[j])
\* every candidate stays within the bounds ...
Feasible == \A i \in DOMAIN cands : \A j \in J :
  RLe(RAbs(cands[i].total[j]), RMul(Room(cands[i], j), "1.00000000000000000000000000001"))
\* ... and the region
InRegion == \A i \in DOMAIN cands : RLe(VNorm(cands[i].totals), RMul(p.delta, "1.00000000000000000000000000001"))
\* without reflections only the fraction of the distance is covered
Fraction == \A i \in DOMAIN cands : cands[i].type = "trr" \/ \A j \in J :
  RLe(RAbs(cands[i].total[j]), RMul(RMul(Th, Room(cands[i], j)), "1.00000000000000000000000000001"))
Counts == /\ Len(OfType("trr")) <= N /\ Len(OfType("trt")) <= N
          /\ phase = "done" =>
               LET al(cs) == [j \in DOMAIN cs |-> cs[j].alpha]  cut == RLt(cands[1].alpha, "1")
                   ts == OfType("trt")
               IN /\ ReflectionsOk(p.strategy, cut, N, al(OfType("trr")))
                  /\ TruncationsOk(p.strategy, cut, al(ts), [j \in DOMAIN ts |-> ts[j].dim])
\* a truncated candidate keeps what was frozen before and freezes more
Freezing == LET ts == OfType("trt") IN \A i \in 2..Len(ts) :
  /\ ts[i - 1].frozen \subseteq ts[i].frozen /\ ts[i - 1].frozen # ts[i].frozen
  /\ \A j \in ts[i - 1].frozen : REq(ts[i].total[j], ts[i - 1].total[j])
\* the choice decreases the model, at least as much as steepest descent
Descent == phase = "done" =>
  /\ RLt(Lowest, "0")
  /\ RLe(Lowest, cands[1].q)
  /\ Len(cands) > 1 => RLe(Lowest, cands[2].q) /\ cands[2].type = "g"
\* the procedure ends: every state that is not final has a successor
Ends == phase \in {"done", "unclear"} \/ phase = "base" \/ ENABLED Next
=============================================================================
