----------------------------- MODULE SolverRules ---------------------------
(* What each subspace solver computes before bounds are considered (C21): the *)
(* trust-region step of the model q(s) = g's + s'Bs/2, |s| <= delta.          *)
EXTENDS StepRules

(* ------------------- conjugate gradients (Steihaug) ---------------------- *)
(* State of the iteration: iterate z, residual r, direction d; end says why   *)
(* it ended with step s.  clear: no decision so far was within rounding       *)
(* errors (of double precision) of being taken otherwise.                     *)
CgTol(g) == LET n == VNorm(g) IN RMul(RMin("0.5", RSqrt(n)), n)
CgStart(g) ==
  [z |-> VZero(Len(g)), r |-> g, d |-> VScl("-1", g), s |-> VZero(Len(g)),
   end |-> IF REq(VNorm(g), "0") THEN "zero" ELSE "", clear |-> TRUE, its |-> 0]
\* the better one of the two points where the line leaves the region
CgLeave(B, g, delta, st) ==
  LET ln == Line(B, g, st.d, delta, st.z)
      val(t) == RAdd(RMul(ln.slope, t), RHalf(RMul(ln.cur, RSq(t))))
      a == val(ln.lo)   b == val(ln.hi)
  IN [t |-> IF RLt(a, b) THEN ln.lo ELSE ln.hi,
      clear |-> ~RNear(a, b, RMul("1E-6", RMax(RAbs(a), RAbs(b))))]
Clear1(a, b) == ~RNear(a, b, RMul("1E-6", RMax(RAbs(a), RAbs(b))))
CgStep(B, g, delta, st) ==
  LET bd == MV(B, st.d)
      c == VDot(st.d, bd)
      dd == VDot(st.d, st.d)
      r2 == VDot(st.r, st.r)
      sure == \/ RLe(RMul(RMul("1E-4", MMax(B)), dd), RAbs(c))
              \/ REq(MMax(B), "0")
      lv == CgLeave(B, g, delta, st)
      leave(why, ok) == [st EXCEPT !.s = VAdd(st.z, VScl(lv.t, st.d)), !.end = why,
                                   !.clear = @ /\ ok /\ lv.clear, !.its = @ + 1]
  IN IF RLe(c, "0") THEN leave("curvature", sure)
     ELSE LET al == RDiv(r2, c)
              zp == VAdd(st.z, VScl(al, st.d))
              rp == VAdd(st.r, VScl(al, bd))
              nz == VNorm(zp)   nr == VNorm(rp)   eps == CgTol(g)
              ok == sure /\ Clear1(nz, delta)
          IN IF RLe(delta, nz) THEN leave("boundary", ok)
             ELSE IF RLt(nr, eps)
             THEN [st EXCEPT !.z = zp, !.s = zp, !.end = "converged",
                             !.clear = @ /\ ok /\ Clear1(nr, eps), !.its = @ + 1]
             ELSE [z |-> zp, r |-> rp, s |-> zp, end |-> "", its |-> st.its + 1,
                   d |-> VAdd(VScl("-1", rp), VScl(RDiv(VDot(rp, rp), r2), st.d)),
                   clear |-> st.clear /\ ok /\ Clear1(nr, eps)]
RECURSIVE CgRun(_, _, _, _)
CgRun(B, g, delta, st) ==
  IF st.end # "" THEN st
  ELSE IF st.its > Len(g) + 1 THEN [st EXCEPT !.clear = FALSE]
  ELSE CgRun(B, g, delta, CgStep(B, g, delta, st))
Steihaug(B, g, delta) == CgRun(B, g, delta, CgStart(g))

(* --------------------- curvature of the model (certified) ---------------- *)
\* all eigenvalues above / some eigenvalue below the given share of the size
Convex(B, share) == RLt("0", MMax(B)) /\ MPsd(Shift(B, RNeg(RMul(share, MMax(B)))))
NonConvex(B, share) == ~MPsd(Shift(B, RMul(share, MMax(B))))
Newton(B, g) == Solve(B, VScl("-1", g))
SteepestDescent(B, g, delta) == Line(B, g, VScl("-1", g), delta, VZero(Len(g))).best

(* ------------------------------ subspaces -------------------------------- *)
Unit(u) == VScl(RDiv("1", VNorm(u)), u)
\* component of v orthogonal to the unit vector u
Across(v, u) == VSub(v, VScl(VDot(u, v), u))
\* orthonormal basis of the span of two vectors, one vector if they are parallel
Basis(u, v) == LET a == Unit(u)  w == Across(Unit(v), a) IN
               IF RLe(VNorm(w), "1E-40") THEN <<a>> ELSE <<a, Unit(w)>>
\* sine of the angle between two vectors
Sine(u, v) == VNorm(Across(Unit(v), Unit(u)))
Outside(p, M) ==  \* distance of p to the span of the orthonormal vectors M
  LET RECURSIVE rest(_, _) rest(a, w) == IF a = 0 THEN w
                                         ELSE rest(a - 1, VSub(w, VScl(VDot(M[a], p), M[a])))
  IN VNorm(rest(Len(M), p))
\* p minimizes the model within the span of M and the region
OptimalIn(B, g, delta, p, M) ==
  LET d == Len(M)
      gc == [a \in 1..d |-> VDot(M[a], g)]
      Bc == [a \in 1..d |-> LET w == MV(B, M[a]) IN [b \in 1..d |-> VDot(w, M[b])]]
      sc == [a \in 1..d |-> VDot(M[a], p)]
      noise == RMul("1E-11", RMul(delta, RAdd(RMul(MMax(B), delta), VNorm(g))))
  IN IF d = 1 THEN LET ln == Line(B, g, M[1], delta, VZero(Len(g)))
                       v == RAdd(RMul(ln.slope, sc[1]), RHalf(RMul(ln.cur, RSq(sc[1]))))
                   IN RLe(v, RAdd(ln.best, RAdd(noise, RMul(Slack, RAbs(ln.best)))))
     ELSE CertifiedUpTo(Bc, gc, sc, delta, noise)
=============================================================================
