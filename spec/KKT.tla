-------------------------------- MODULE KKT --------------------------------
(* Enumerates trust-region subproblems together with their global solutions.  *)
(* Any (B, g, delta) with g = -(B + lam I)s, lam >= 0, B + lam I positive     *)
(* semidefinite and lam (delta - |s|) = 0 has s as a global minimizer, so the *)
(* cases are constructed from eigenvalues, an orthogonal matrix, lam and the  *)
(* coefficients of s in the eigenbasis.  This includes hard cases (lam is     *)
(* minus the lowest eigenvalue), nearly hard cases, repeated eigenvalues,     *)
(* singular matrices and badly scaled ones.                                   *)
EXTENDS Rules, Json, IOUtils, TLC

Quick == IOEnv.QUICK = "1"
R(a, b) == RDiv(a, b)
RotA == <<<<R("3", "5"), R("-4", "5")>>, <<R("4", "5"), R("3", "5")>>>>
RotB == <<<<R("5", "13"), R("12", "13")>>, <<R("-12", "13"), R("5", "13")>>>>
Ref3 == <<<<R("1", "3"), R("2", "3"), R("2", "3")>>, <<R("2", "3"), R("1", "3"), R("-2", "3")>>,
          <<R("2", "3"), R("-2", "3"), R("1", "3")>>>>
Orth3 == <<<<R("2", "7"), R("3", "7"), R("6", "7")>>, <<R("3", "7"), R("-6", "7"), R("2", "7")>>,
           <<R("6", "7"), R("2", "7"), R("-3", "7")>>>>
Orth(n) == IF n = 2 THEN {MEye(2), RotA, RotB} ELSE {MEye(3), Ref3, Orth3}
Eigs(n) ==
  IF n = 2
  THEN {<<"1", "1">>, <<"1", "3">>, <<"-1", "2">>, <<"-2", "-1">>, <<"0", "1">>, <<"0", "0">>,
        <<"-1", "-1">>, <<"0.001", "1000">>, <<"-0.000001", "5">>, <<"0.0000001", "1">>,
        <<"-1000", "0.01">>, <<"-3", "3">>}
  ELSE {<<"1", "1", "1">>, <<"1", "2", "5">>, <<"-1", "-1", "2">>, <<"-2", "0", "1">>,
        <<"0", "0", "3">>, <<"-1", "-1", "-1">>, <<"0.0001", "1", "10000">>,
        <<"-0.00001", "1", "1">>}
Lowest(e) == LET n == Len(e) IN RMin(e[1], IF n = 2 THEN e[2] ELSE RMin(e[2], e[3]))
\* multiples that are added to the smallest admissible multiplier
Lift == {"0", "1E-10", "0.001", "1", "50"}
Coef(n) ==
  IF n = 2
  THEN {<<"1", "1">>, <<"1", "0">>, <<"0", "1">>, <<"1E-9", "1">>, <<"1", "1E-9">>, <<"-1", "2">>,
        <<"1E-14", "-1">>, <<"-3", "1E-4">>}
  ELSE {<<"1", "1", "1">>, <<"1", "0", "0">>, <<"0", "1", "1">>, <<"0", "0", "-1">>,
        <<"1E-9", "1", "-1">>, <<"-1", "1E-9", "2">>, <<"1E-13", "1E-13", "1">>}
Sizes == IF Quick THEN {"1", "1E-5"} ELSE {"1", "1E-5", "1000", "1E-9"}
Scales == IF Quick THEN {"1", "1E6"} ELSE {"1", "1E6", "1E-6"}
Rooms == {"1", "1.5", "100"}

VARIABLES case, done
CaseOf(n, e, Q, lift, c, size, scale, room) ==
  LET es == [j \in 1..n |-> RMul(scale, e[j])]
      lam == RAdd(RMax("0", RNeg(Lowest(es))), RMul(scale, lift))
      cs == [j \in 1..n |-> RMul(size, c[j])]
      B == [i \in 1..n |-> [j \in 1..n |->
              VDot([k \in 1..n |-> RMul(Q[i][k], es[k])], [k \in 1..n |-> Q[j][k]])]]
      w == [k \in 1..n |-> RNeg(RMul(RAdd(es[k], lam), cs[k]))]
      s == MV(Q, cs)
      g == MV(Q, w)
      best == VDot([k \in 1..n |-> RMul(w[k], cs[k])], [k \in 1..n |-> "1"])
      curv == VDot([k \in 1..n |-> RMul(es[k], cs[k])], cs)
  IN [kind |-> "kkt", B |-> B, g |-> g, delta |-> RMul(room, VNorm(cs)),
      best |-> RAdd(best, RHalf(curv)), lam |-> lam, sol |-> s]
\* the construction is right: certificate conditions hold exactly
Sound(k, room) ==
  /\ RLe("0", k.lam)
  /\ (room # "1" => REq(k.lam, "0"))
  /\ MPsd(MAdd(k.B, MScl(RAdd(k.lam, RMul("1E-50", RAdd("1", MMax(k.B)))), MEye(Len(k.g)))))
  /\ RLe(VNorm(VAdd(MV(k.B, k.sol), VAdd(VScl(k.lam, k.sol), k.g))),
         RMul("1E-50", RAdd("1", VNorm(k.g))))
Init ==
  /\ done = FALSE
  /\ \E n \in {2, 3} : \E e \in Eigs(n), Q \in Orth(n), lift \in Lift, c \in Coef(n),
       size \in Sizes, scale \in Scales, room \in Rooms :
       /\ (room # "1" => lift = "0" /\ RLe("0", Lowest(e)))
       \* quick: a third of all combinations
       /\ case = [n |-> n, e |-> e, Q |-> Q, lift |-> lift, c |-> c, size |-> size,
                  scale |-> scale, room |-> room]
Next ==
  /\ ~done /\ done' = TRUE /\ case' = case
  /\ LET k == CaseOf(case.n, case.e, case.Q, case.lift, case.c, case.size, case.scale, case.room)
     IN /\ Assert(Sound(k, case.room), <<"unsound case", case>>)
        /\ PrintT("@@" \o ToJson(k))
Spec == Init /\ [][Next]_<<case, done>>
=============================================================================
