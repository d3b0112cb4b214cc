------------------------------ MODULE ConvexQP ------------------------------
(* Enumerates strictly convex quadratics with bounds together with their       *)
(* unique constrained minimizers: the minimizer xs and the multipliers z are   *)
(* chosen, and the gradient at xs is z, so that the optimality conditions      *)
(*   z_i >= 0 where xs_i is at its lower, z_i <= 0 at its upper bound, else 0  *)
(* hold by construction.  f(x) = base + z'(x - xs) + (x - xs)'H(x - xs)/2.     *)
EXTENDS Rules, Json, IOUtils, TLC

Seed == atoi(IOEnv.QPSEED)      \* below 10^8
Total == atoi(IOEnv.QPTOTAL)
R(a, b) == RDiv(a, b)
RotA == <<<<R("3", "5"), R("-4", "5")>>, <<R("4", "5"), R("3", "5")>>>>
RotB == <<<<R("5", "13"), R("12", "13")>>, <<R("-12", "13"), R("5", "13")>>>>
Ref3 == <<<<R("1", "3"), R("2", "3"), R("2", "3")>>, <<R("2", "3"), R("1", "3"), R("-2", "3")>>,
          <<R("2", "3"), R("-2", "3"), R("1", "3")>>>>
Orth3 == <<<<R("2", "7"), R("3", "7"), R("6", "7")>>, <<R("3", "7"), R("-6", "7"), R("2", "7")>>,
           <<R("6", "7"), R("2", "7"), R("-3", "7")>>>>
\* reflection along v
Refl(v) == [i \in DOMAIN v |-> [j \in DOMAIN v |->
             RSub(IF i = j THEN "1" ELSE "0", RDiv(RMul("2", RMul(v[i], v[j])), VDot(v, v)))]]
ReflA(n) == Refl([i \in 1..n |-> <<"1", "2", "-1", "3", "1", "-2", "0", "1">>[i]])
ReflB(n) == Refl([i \in 1..n |-> <<"2", "0", "1", "-1", "3", "1", "1", "-2">>[i]])
Orth(n) == IF n = 1 THEN <<MEye(1)>> ELSE IF n = 2 THEN <<MEye(2), RotA, RotB>>
           ELSE IF n = 3 THEN <<MEye(3), Ref3, Orth3>>
           ELSE <<MEye(n), ReflA(n), ReflB(n)>>
\* singular values of the residual Jacobian; the Hessian has their squares
Sing(n) == IF n = 1 THEN <<<<"1">>, <<"0.5">>, <<"3">>>>
           ELSE IF n = 2 THEN <<<<"1", "1">>, <<"0.5", "2">>, <<"3", "1">>, <<"0.4", "4">>>>
           ELSE IF n = 3 THEN <<<<"1", "1", "1">>, <<"0.5", "1", "3">>, <<"2", "2", "0.5">>, <<"4", "0.4", "1">>>>
           ELSE <<[i \in 1..n |-> "1"], [i \in 1..n |-> <<"0.5", "1", "3", "2", "0.8", "1.5">>[((i - 1) % 6) + 1]],
                  [i \in 1..n |-> IF i = 2 THEN "4" ELSE IF i = n THEN "0.4" ELSE "1"]>>
Places == <<"lo", "up", "in", "free", "onel", "oneu", "loone", "upone">>
Widths == <<"0.5", "2", "10">>
Fracs == <<"0.05", "0.5", "0.95">>
Mults == <<"0", "0.5", "0.5", "10">>
Where == <<"0.1", "0.5", "0.9">>
Cent == <<"-2", "-1", "0", "1", "3">>
Bases == <<"0", "1", "-50", "1000">>
Rests == <<"0", "0.5", "2">>

(* A scrambled counter chooses the values: each component of every axis is     *)
(* visited equally often, pairs of axes in all combinations.                   *)
Mix(k, p, q) == (((k + Seed) % 104729) * p + q) % 104729
Pick(s, k, p, q) == s[(Mix(Mix(k, p, q), 20011, 11) % Len(s)) + 1]
Digit(i) == <<17, 1009, 2003, 3001, 4001, 5003, 6007, 7001>>[i]

CaseOf(k) ==
  LET n == Pick(<<1, 2, 2, 3, 3, 3, 4, 5, 6, 8>>, k, 31, 3)
      Q == Pick(Orth(n), k, 37, 5)
      sv == Pick(Sing(n), k, 41, 7)
      place == [i \in 1..n |-> Pick(Places, k, 43 + Digit(i), i)]
      w == [i \in 1..n |-> Pick(Widths, k, 47 + Digit(i), i + 10)]
      fr == [i \in 1..n |-> Pick(Fracs, k, 53 + Digit(i), i + 20)]
      mu == [i \in 1..n |-> Pick(Mults, k, 59 + Digit(i), i + 30)]
      wh == [i \in 1..n |-> Pick(Where, k, 61 + Digit(i), i + 40)]
      c == [i \in 1..n |-> Pick(Cent, k, 67 + Digit(i), i + 50)]
      lb == [i \in 1..n |-> CASE place[i] \in {"lo", "in", "onel", "loone"} -> c[i]
                              [] place[i] = "up" -> RSub(c[i], w[i])
                              [] OTHER -> "-inf"]
      ub == [i \in 1..n |-> CASE place[i] \in {"up", "oneu", "upone"} -> c[i]
                              [] place[i] \in {"lo", "in"} -> RAdd(c[i], w[i])
                              [] OTHER -> "inf"]
      xs == [i \in 1..n |-> CASE place[i] = "in" \/ place[i] = "onel" -> RAdd(c[i], RMul(wh[i], w[i]))
                              [] place[i] = "oneu" -> RSub(c[i], RMul(wh[i], w[i]))
                              [] OTHER -> c[i]]
      z == [i \in 1..n |-> CASE place[i] \in {"lo", "loone"} -> mu[i]
                             [] place[i] \in {"up", "upone"} -> RNeg(mu[i])
                             [] OTHER -> "0"]
      x0 == [i \in 1..n |-> CASE place[i] \in {"up", "oneu", "upone"} -> RSub(c[i], RMul(fr[i], w[i]))
                              [] OTHER -> RAdd(c[i], RMul(fr[i], w[i]))]
      \* Jacobian J = diag(sv) Q' with a row of zeros: H = J'J
      J == [i \in 1..(n + 1) |-> IF i > n THEN VZero(n)
                                 ELSE [j \in 1..n |-> RMul(sv[i], Q[j][i])]]
      H == [i \in 1..n |-> [j \in 1..n |-> VDot([m \in 1..n |-> J[m][i]], [m \in 1..n |-> J[m][j]])]]
      \* residual at xs: J'r = z
      r == [i \in 1..(n + 1) |-> IF i > n THEN Pick(Rests, k, 71, 60)
                                 ELSE RDiv(VDot([m \in 1..n |-> Q[m][i]], z), sv[i])]
  IN [k |-> k, n |-> n, H |-> H, J |-> J, r |-> r, z |-> z, xs |-> xs, lb |-> lb, ub |-> ub, x0 |-> x0,
      base |-> Pick(Bases, k, 73, 61), place |-> place]

(* ---- the construction is right ---- *)
Tiny == "1E-45"
Feasible(q, x) == \A i \in DOMAIN x : RLe(q.lb[i], x[i]) /\ RLe(x[i], q.ub[i])
Inside(q, x) == \A i \in DOMAIN x : RLt(q.lb[i], x[i]) /\ RLt(x[i], q.ub[i])
Optimal(q) == \A i \in DOMAIN q.z :
  /\ (RLt("0", q.z[i]) => REq(q.xs[i], q.lb[i]))
  /\ (RLt(q.z[i], "0") => REq(q.xs[i], q.ub[i]))
Sound(q) ==
  /\ Feasible(q, q.xs) /\ Inside(q, q.x0) /\ Optimal(q)
  /\ MPsd(MSub(q.H, MScl("0.159", MEye(q.n))))          \* strictly convex
  /\ MPsd(MSub(MScl("16.1", MEye(q.n)), q.H))           \* and moderately conditioned
  /\ RLe(VNormInf(VSub(MTV(q.J, q.r), q.z)), Tiny)

(* the excess of the objective over the constrained minimum, exactly *)
Gap(q, x) == LET d == VSub(x, q.xs) IN RAdd(VDot(q.z, d), RHalf(QF(q.H, d)))
(* the same for the least-squares form: |J d + r|^2 / 2 *)
Best(q, ls) == IF ls THEN RHalf(VDot(q.r, q.r)) ELSE q.base
=============================================================================
