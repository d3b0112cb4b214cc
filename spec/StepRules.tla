------------------------------ MODULE StepRules ----------------------------
(* Step-back at bounds (C11, C12): how candidates for the trial step follow   *)
(* from one another.  A candidate starts at x + s0, has the full step og (the *)
(* solution of its subproblem) and the step that remains after stepping back. *)
EXTENDS TRCert

(* ------------------------------ breakpoints ------------------------------ *)
\* multiple of step s at which variable j, starting at y, reaches its bound
Break(y, s, lb, ub, j) ==
  IF REq(s[j], "0") THEN "inf"
  ELSE RDiv(RSub(IF RLt("0", s[j]) THEN ub[j] ELSE lb[j], y[j]), s[j])
Breaks(y, s, lb, ub) == [j \in DOMAIN s |-> Break(y, s, lb, ub, j)]
RECURSIVE MinOf(_)
MinOf(b) == IF Len(b) = 1 THEN b[1] ELSE RMin(b[1], MinOf(SubSeq(b, 2, Len(b))))
\* fraction of the step that is taken
Alpha(theta, b) == RMin("1", RMul(theta, MinOf(b)))
Hits(b) == {j \in DOMAIN b : REq(b[j], MinOf(b))}

(* ------------------------------ reflection ------------------------------- *)
Turn(u, hit) == [j \in DOMAIN u |-> IF j \in hit THEN RNeg(u[j]) ELSE u[j]]
HitPoint(s0, og, b) == VAdd(s0, VScl(RMin("1", MinOf(b)), og))

(* ------------------------------ truncation ------------------------------- *)
Frozen(s0, og, b, theta, hit) ==
  [j \in DOMAIN s0 |-> IF j \in hit THEN RAdd(s0[j], RMul(theta, RMul(b[j], og[j])))
                       ELSE s0[j]]

(* ------------------- minimum along a line within a region ---------------- *)
(* minimize q(s0 + t d) over all t with |s0 + t d| <= delta                   *)
Line(B, g, d, delta, s0) ==
  LET a == VDot(d, d)
      h == VDot(s0, d)
      c == RMin("0", RSub(VDot(s0, s0), RSq(delta)))
      root == RSqrt(RMax("0", RSub(RSq(h), RMul(a, c))))
      lo == RDiv(RSub(RNeg(h), root), a)
      hi == RDiv(RSub(root, h), a)
      cur == QF(B, d)
      slope == VDot(d, VAdd(MV(B, s0), g))
      val(t) == RAdd(RMul(slope, t), RHalf(RMul(cur, RSq(t))))
      ends == RMin(val(lo), val(hi))
      nw == RNeg(RDiv(slope, cur))
      in == RLt("0", cur) /\ RLe(lo, nw) /\ RLe(nw, hi)
      best == IF in THEN RMin(val(nw), ends) ELSE ends
  IN [best |-> best, lo |-> lo, hi |-> hi, cur |-> cur, slope |-> slope,
      arg |-> IF in /\ RLe(val(nw), ends) THEN nw
              ELSE IF RLe(val(hi), val(lo)) THEN hi ELSE lo]

(* ---------------------------- linear systems ----------------------------- *)
\* solution of m y = r for a positive definite m
RECURSIVE Solve(_, _)
Solve(m, r) ==
  IF Len(r) = 1 THEN <<RDiv(r[1], m[1][1])>> ELSE
  LET n == Len(r)
      f(a) == RDiv(m[a][n], m[n][n])
      y == Solve([a \in 1..(n-1) |-> [b \in 1..(n-1) |-> RSub(m[a][b], RMul(f(a), m[n][b]))]],
                 [a \in 1..(n-1) |-> RSub(r[a], RMul(f(a), r[n]))])
  IN Append(y, RDiv(RSub(r[n], VDot(SubSeq(m[n], 1, n - 1), y)), m[n][n]))

(* ------------------------- which candidates exist ------------------------ *)
(* cut: the trust-region step was stepped back; al: fractions taken by the    *)
(* reflected / truncated candidates; left: dimensions left to the truncated   *)
(* ones; dim: dimension of the subspace of the trust-region step.             *)
FirstOne(al) == IF \E j \in DOMAIN al : REq(al[j], "1")
                THEN CHOOSE j \in DOMAIN al : REq(al[j], "1") /\ \A i \in 1..(j-1) : ~REq(al[i], "1")
                ELSE Len(al) + 1
ReflectionsOk(strategy, cut, n, al) ==
  IF ~cut \/ strategy \in {"truncate", "refine"} THEN al = <<>>
  ELSE IF strategy = "reflect_single" THEN Len(al) = 1
  ELSE Len(al) = (IF FirstOne(al) < n THEN FirstOne(al) ELSE n)
TruncationsOk(strategy, cut, al, left) ==
  IF ~cut \/ strategy \notin {"truncate", "mixed"} THEN al = <<>>
  ELSE /\ Len(al) >= 1
       /\ \A j \in 1..(Len(al) - 1) : ~REq(al[j], "1") /\ left[j] > 0
       /\ REq(al[Len(al)], "1") \/ left[Len(al)] = 0
=============================================================================
