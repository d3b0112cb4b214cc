------------------------------ MODULE StepCase -----------------------------
(* Recorded calls of the step computation: the scaled model of a call and     *)
(* what can be said about steps in subspaces.                                 *)
EXTENDS StepRules, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
Has(r, f) == f \in DOMAIN r
VARIABLES i,      \* case
          k       \* next candidate: 0 = the call as a whole
vars == <<i, k>>
C == Cases[i]
N == C.n
Lb == VDbl(C.lb)   Ub == VDbl(C.ub)   X == VDbl(C.x)
D == VDbl(C.scal)
SG == VMul(D, VDbl(C.g))
B == [a \in 1..N |-> [b \in 1..N |->
        RAdd(RMul(RMul(D[a], RDbl(C.h[a][b])), D[b]),
             IF a = b THEN RMul(RAbs(RDbl(C.g[a])), C.dv[a]) ELSE "0")]]
Th == RDbl(C.theta)
Delta == RDbl(C.delta)
\* sizes for rounding errors of the model
QTol(p) ==
  LET ap == VAbs(p) IN
  RMul("1E-12", RAdd(VDot(VAbs(SG), ap), VDot(ap, MV([a \in 1..N |-> VAbs(B[a])], ap))))

Col(m, j) == [a \in DOMAIN m |-> RDbl(m[a][j])]
Cols(m, d) == [j \in 1..d |-> Col(m, j)]
\* optimality in the recorded subspace, relative to the starting point
Optimal(c, S, d) ==
  LET ss0 == VDbl(c.ss0)   og == VDbl(c.og_ss)
      rr == RSub(RSq(Delta), VDot(ss0, ss0))
  IN IF d = 0 THEN REq(VNorm(og), "0")
     ELSE IF RLe(rr, RMul("1E-10", RSq(Delta))) THEN TRUE
     ELSE LET r == RSqrt(rr)
              g0 == VAdd(SG, MV(B, ss0))
              M == Cols(S, d)
              gc == [a \in 1..d |-> VDot(M[a], g0)]
              Bc == [a \in 1..d |-> LET w == MV(B, M[a]) IN [b \in 1..d |-> VDot(w, M[b])]]
              sc == [a \in 1..d |-> VDot(M[a], og)]
              noise == RMul("1E-11", RMul(r, RAdd(RMul(MMax(B), RAdd(Delta, r)), VNorm(SG))))
          IN IF d = 1
             THEN LET ln == Line(B, SG, M[1], Delta, ss0)
                      lm == Line(B, SG, M[1], RMul(Delta, "0.9999999999999"), ss0)
                      v == RAdd(RMul(ln.slope, sc[1]), RHalf(RMul(ln.cur, RSq(sc[1]))))
                  IN RLe(v, RAdd(RMax(ln.best, lm.best), RAdd(noise, RMul(Slack, RAbs(ln.best)))))
             ELSE CertifiedUpTo(Bc, gc, sc, r, noise)
InSpan(u, S, d) ==      \* u is in the span of the orthonormal columns of S
  LET M == Cols(S, d)
      RECURSIVE pr(_) pr(a) == IF a = 0 THEN VZero(N)
                               ELSE VAdd(pr(a - 1), VScl(VDot(M[a], u), M[a]))
  IN RLe(VNorm(VSub(u, pr(d))), RMul("1E-7", VNorm(u)))
Orthonormal(S, d) == \A a, b \in 1..d :
  RNear(VDot(Col(S, a), Col(S, b)), IF a = b THEN "1" ELSE "0", "1E-9")
\* a step without direction (zero model gradient) has a zero column
ZeroCol(S, d) == d = 1 /\ \A a \in 1..N : REq(S[a][1], "0")
=============================================================================
