------------------------------- MODULE TRCert ------------------------------
(* Certificates of global optimality for trust-region subproblems: minimize   *)
(* q(s) = g's + s'Bs/2 subject to |s| <= delta.                               *)
EXTENDS Rules

Value(B, g, s) == RAdd(VDot(g, s), RHalf(QF(B, s)))
Shift(B, a) == MAdd(B, MScl(a, MEye(Len(B))))
Slack == "0.0000001"

(* ------------------------------ n dimensions ----------------------------- *)
(* For M = B + lam I, r = Ms + g and y = p - s with |p| <= delta:             *)
(*   q(p) - q(s) = r'y + y'My/2 + lam (|s|^2 - |p|^2)/2                       *)
(*               >= r'y + y'My/2 - lam (delta^2 - |s|^2)/2,   |y| <= 2 delta, *)
(* which is at least -room - lam (delta^2 - |s|^2)/2 where, for some mu >= 0, *)
(*   [ M + mu I    r                  ]                                       *)
(*   [ r'          2 room - 4 mu delta^2 ]    is positive semidefinite.       *)
Multiplier(B, g, s) ==
  LET ss == VDot(s, s)
      l == IF REq(ss, "0") THEN "0"
           ELSE RNeg(RDiv(VDot(s, VAdd(MV(B, s), g)), ss))
  IN RMax("0", l)
Tolerance(B, g, s, delta) ==
  RAdd(RMul(Slack, RAbs(Value(B, g, s))),
       RMul("1E-12", RAdd(RMul(RMul(RInt(Len(g)), MMax(B)), RSq(delta)),
                          RMul(VNorm(g), delta))))
Bordered(m, r, c) ==
  LET n == Len(r) IN
  [i \in 1..(n+1) |-> [j \in 1..(n+1) |->
    IF i <= n THEN (IF j <= n THEN m[i][j] ELSE r[i])
    ELSE IF j <= n THEN r[j] ELSE c]]
\* optimality with one multiplier
CertifiedBy(B, g, s, delta, lam, extra) ==
  LET ss == VDot(s, s)
      M == Shift(B, lam)
      r == VAdd(MV(M, s), g)
      room == RSub(RAdd(extra, Tolerance(B, g, s, delta)),
                   RMul(RHalf(lam), RMax("0", RSub(RSq(delta), ss))))
      some(mu) == MPsd(Bordered(Shift(M, mu), r,
                    RSub(RMul("2", room), RMul(RMul("4", mu), RSq(delta)))))
      share(k) == RDiv(RMul(k, room), RSq(delta))
  IN /\ RLe("0", room)
     /\ some("0") \/ some(share("0.05")) \/ some(share("0.25")) \/ some(share("0.45"))
\* extra: additional slack for a step that is only known up to rounding errors
CertifiedUpTo(B, g, s, delta, extra) ==
  \/ CertifiedBy(B, g, s, delta, Multiplier(B, g, s), extra)
  \/ CertifiedBy(B, g, s, delta, "0", extra)
Certified(B, g, s, delta) == CertifiedUpTo(B, g, s, delta, "0")
Within(s, delta) == RLe(VNorm(s), RMul(delta, RAdd("1", Slack)))
=============================================================================
