------------------------------- MODULE Smooth -------------------------------
(* Smooth problems with bounds that are in general not convex, as polynomials  *)
(* of degree four, so that value, gradient and Hessian are exact here:         *)
(*   quartic:  sum_i w_i (x_i - a_i)^4 / 4 + x'Ax / 2 + b'x   (A indefinite)   *)
(*   lsq:      |r(x)|^2 / 2,  r_j = w_j (x_j - a_j) for j <= n and two more    *)
(*             residuals  c + b'x + q (u'x)^2 / 2                              *)
(* Both grow without limit in every direction, so that minimizers exist.       *)
EXTENDS Rules, Json, IOUtils, TLC

Seed == atoi(IOEnv.QPSEED)      \* below 10^8
Total == atoi(IOEnv.QPTOTAL)

Mix(k, p, q) == (((k + Seed) % 104729) * p + q) % 104729
Pick(s, k, p, q) == s[(Mix(Mix(k, p, q), 20011, 11) % Len(s)) + 1]
Digit(i) == <<17, 1009, 2003, 3001, 4001, 5003, 6007, 7001>>[i]

Starts == <<"-2.5", "-1", "-0.25", "0.25", "0.75", "1.75", "3">>
Gaps == <<"0.125", "0.5", "1", "3">>
Entries == <<"-2", "-1.5", "-1", "-0.5", "0", "0", "0.5", "1", "1.5", "2">>
Weights == <<"0.5", "1", "2">>
Centres == <<"-1", "0", "0", "0.5", "2">>
Slopes == <<"-2", "-0.5", "0.25", "1", "3">>
Quads == <<"-2", "-1", "0.5", "1", "3">>
Dirs == <<"-1", "0", "1", "1", "0.5">>

CaseOf(k) ==
  LET n == Pick(<<1, 2, 2, 3, 3, 4, 5, 6>>, k, 31, 3)
      kind == Pick(<<"quartic", "lsq">>, k, 37, 5)
      w == [i \in 1..n |-> Pick(Weights, k, 43 + Digit(i), i)]
      a == [i \in 1..n |-> Pick(Centres, k, 47 + Digit(i), i + 10)]
      b == [i \in 1..n |-> Pick(Slopes, k, 53 + Digit(i), i + 20)]
      x0 == [i \in 1..n |-> Pick(Starts, k, 59 + Digit(i), i + 30)]
      side == [i \in 1..n |-> Pick(<<"free", "lo", "up", "both">>, k, 61 + Digit(i), i + 40)]
      gl == [i \in 1..n |-> Pick(Gaps, k, 67 + Digit(i), i + 50)]
      gu == [i \in 1..n |-> Pick(Gaps, k, 71 + Digit(i), i + 60)]
      lb == [i \in 1..n |-> IF side[i] \in {"lo", "both"} THEN RSub(x0[i], gl[i]) ELSE "-inf"]
      ub == [i \in 1..n |-> IF side[i] \in {"up", "both"} THEN RAdd(x0[i], gu[i]) ELSE "inf"]
      e(i, j) == Pick(Entries, k, 73 + Digit(i), 7 * j + 3)
      A == [i \in 1..n |-> [j \in 1..n |-> e(IF i < j THEN i ELSE j, IF i < j THEN j ELSE i)]]
      extra == [j \in 1..2 |-> [c |-> Pick(Slopes, k, 79, j + 70),
                                b |-> [i \in 1..n |-> Pick(Entries, k, 83 + Digit(i), j + 80)],
                                q |-> Pick(Quads, k, 89, j + 90),
                                u |-> [i \in 1..n |-> Pick(Dirs, k, 97 + Digit(i), j + 100)]]]
  IN [k |-> k, n |-> n, kind |-> kind, w |-> w, a |-> a, b |-> b, A |-> A, extra |-> extra,
      x0 |-> x0, lb |-> lb, ub |-> ub]

(* ---- residuals ---- *)
Res(q, x) == [j \in 1..(q.n + 2) |->
  IF j <= q.n THEN RMul(q.w[j], RSub(x[j], q.a[j]))
  ELSE LET e == q.extra[j - q.n] IN
       RAdd(RAdd(e.c, VDot(e.b, x)), RHalf(RMul(e.q, RSq(VDot(e.u, x)))))]
Jac(q, x) == [j \in 1..(q.n + 2) |->
  IF j <= q.n THEN [i \in 1..q.n |-> IF i = j THEN q.w[j] ELSE "0"]
  ELSE LET e == q.extra[j - q.n] IN VAdd(e.b, VScl(RMul(e.q, VDot(e.u, x)), e.u))]
Gram(J) == [i \in DOMAIN J[1] |-> [j \in DOMAIN J[1] |->
             VDot([m \in DOMAIN J |-> J[m][i]], [m \in DOMAIN J |-> J[m][j]])]]

(* ---- value, gradient and Hessian ---- *)
Val(q, x) ==
  IF q.kind = "lsq" THEN RHalf(VDot(Res(q, x), Res(q, x)))
  ELSE RAdd(RMul("0.25", VDot(q.w, [i \in 1..q.n |-> RSq(RSq(RSub(x[i], q.a[i])))])),
            RAdd(RHalf(QF(q.A, x)), VDot(q.b, x)))
Grad(q, x) ==
  IF q.kind = "lsq" THEN MTV(Jac(q, x), Res(q, x))
  ELSE LET AX == MV(q.A, x) IN
       [i \in 1..q.n |-> LET d == RSub(x[i], q.a[i]) IN
          RAdd(RMul(q.w[i], RMul(d, RSq(d))), RAdd(AX[i], q.b[i]))]
Hess(q, x) ==
  IF q.kind = "lsq" THEN
    LET r == Res(q, x) IN
    MAdd(Gram(Jac(q, x)),
         MAdd(MScl(RMul(r[q.n + 1], q.extra[1].q), MOuter(q.extra[1].u, q.extra[1].u)),
              MScl(RMul(r[q.n + 2], q.extra[2].q), MOuter(q.extra[2].u, q.extra[2].u))))
  ELSE MAdd(q.A, MDiag([i \in 1..q.n |-> RMul("3", RMul(q.w[i], RSq(RSub(x[i], q.a[i]))))]))

(* The derivatives are the right ones: the Taylor polynomial of degree three   *)
(* with central differences is exact for polynomials of degree four.           *)
Tiny == "1E-40"
Unit(q, i, h) == [j \in 1..q.n |-> IF j = i THEN h ELSE "0"]
DerivedAt(q, x) ==
  \A i \in 1..q.n :
    LET up(h) == VAdd(x, Unit(q, i, h))
        d(F(_)) == RDiv(RSub(RMul("8", RSub(F("1"), F("-1"))), RSub(F("2"), F("-2"))), "12")
        V(h) == Val(q, up(h))
    IN /\ RLe(RAbs(RSub(d(V), Grad(q, x)[i])), Tiny)
       /\ \A j \in 1..q.n : LET G(h) == Grad(q, up(h))[j] IN RLe(RAbs(RSub(d(G), Hess(q, x)[i][j])), Tiny)
Inside(q, x) == \A i \in DOMAIN x : RLt(q.lb[i], x[i]) /\ RLt(x[i], q.ub[i])
Feasible(q, x) == \A i \in DOMAIN x : RLe(q.lb[i], x[i]) /\ RLe(x[i], q.ub[i])
Sound(q) == /\ Inside(q, q.x0) /\ DerivedAt(q, q.x0)
            /\ \A i, j \in 1..q.n : REq(q.A[i][j], q.A[j][i])

(* ---- what a point misses to be a local minimizer ---- *)
\* distance to the bound the descent direction points to
Room(q, x, g, i) == IF RLt(g[i], "0") THEN RSub(q.ub[i], x[i]) ELSE RSub(x[i], q.lb[i])
Stationarity(q, x) == LET g == Grad(q, x) IN VNormInf([i \in 1..q.n |-> RMin(RAbs(g[i]), Room(q, x, g, i))])
\* variables away from their bounds
Loose(q, x, d) == {i \in 1..q.n : RLt(d, RMin(RSub(x[i], q.lb[i]), RSub(q.ub[i], x[i])))}
Curved(q, x, tol) ==
  LET S == Loose(q, x, "0.001") IN
  S = {} \/ LET s == SelectSeq([i \in 1..q.n |-> i], LAMBDA i : i \in S)
               H == Hess(q, x)
            IN MPsd([i \in DOMAIN s |-> [j \in DOMAIN s |-> RAdd(H[s[i]][s[j]], IF i = j THEN tol ELSE "0")]])
=============================================================================
