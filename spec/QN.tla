--------------------------------- MODULE QN --------------------------------
(* Quasi-Newton and structured secant updates in exact arithmetic, with       *)
(* forward error bounds that follow from the conditioning of the update.      *)
(* s: step, y: gradient difference, B: matrix before.  An update is described *)
(* by the set of changes D that are permitted (more than one if a switching   *)
(* quantity is within rounding errors of its threshold) and the tolerance.    *)
EXTENDS Rules

SQRTEPS == "1.4901161193847656E-8"

(* ------------------------------ formulas --------------------------------- *)
BFGSFormula(B, s, y) ==
  LET u == MV(B, s)
  IN MSub(MScl(RDiv("1", VDot(y, s)), MOuter(y, y)),
          MScl(RDiv("1", VDot(u, s)), MOuter(u, u)))
\* Davidon-Fletcher-Powell in product form: (I - r y s')B(I - r s y') + r y y' - B
DFPFormula(B, s, y) ==
  LET n == Len(s)
      r == RDiv("1", VDot(y, s))
      u == MV(B, s)
      sBs == VDot(u, s)
      \* B - r (y u' + u y') + r^2 sBs y y' + r y y' - B  (B symmetric)
  IN MAdd(MScl(RNeg(r), MAdd(MOuter(y, u), MOuter(u, y))),
          MScl(RAdd(RMul(RSq(r), sBs), r), MOuter(y, y)))
\* convex combination of both formulas
BroydenFormula(B, s, y, phi) ==
  IF REq(phi, "0") THEN BFGSFormula(B, s, y)
  ELSE MAdd(MScl(RSub("1", phi), BFGSFormula(B, s, y)),
            MScl(phi, DFPFormula(B, s, y)))
SR1Formula(B, s, y) ==
  LET z == VSub(y, MV(B, s)) IN MScl(RDiv("1", VDot(z, s)), MOuter(z, z))
BGFormula(B, s, y) ==
  MScl(RDiv("1", VDot(s, s)), MOuter(VSub(y, MV(B, s)), s))
BBFormula(B, s, y) ==
  MScl(RDiv("1", VDot(y, s)), MOuter(VSub(y, MV(B, s)), s))
MZero(B) == [i \in DOMAIN B |-> [j \in DOMAIN B[i] |-> "0"]]

(* ------------------------- updates with error bounds --------------------- *)
(* ds, dy: absolute errors (norms) with which s and y are known.               *)
Rel(d, n) == IF REq(n, "0") THEN "1" ELSE RDiv(d, n)

BroydenUpd(B, s, y, phi, curv, ds, dy) ==
  LET n == RInt(Len(s) + 2)
      u == MV(B, s)      nb == RMul(n, MMax(B))
      ns == VNorm(s)     ny == VNorm(y)    nu == VNorm(u)
      b == VDot(y, s)    c == VDot(u, s)
      rs == RAdd(Rel(ds, ns), RMul("8", EPS))
      ry == RAdd(Rel(dy, ny), RMul("8", EPS))
      du == RMul(RMul(nb, ns), rs)
      eb == RMul("4", RMul(RMul(ny, ns), RMul(n, RAdd(rs, ry))))
      ec == RMul("4", RMul(RMul(RMul(nb, ns), ns), RMul(n, rs)))
      ab == RAbs(b)      ac == RAbs(c)
      amb == \/ RLe(RMul(ab, "0.01"), eb) \/ RLe(RMul(ac, "0.01"), ec)
             \/ REq(b, "0") \/ REq(c, "0")
      w == RAdd(RDiv(ny, ab), RDiv(nu, ac))
      base == RAdd(RAdd(RDiv(RSq(ny), ab), RDiv(RSq(nu), ac)),
                   IF REq(phi, "0") THEN "0"
                   ELSE RMul(RMul(RAbs(phi), ac), RSq(w)))
      rel == RAdd(RAdd(RMul("4", ry), RMul("4", Rel(du, nu))),
                  RMul("4", RAdd(RDiv(eb, ab), RDiv(ec, ac))))
  IN IF amb
     THEN \* curvature (nearly) zero: either no update or a finite formula
          [any |-> ~(REq(ds, "0") /\ REq(dy, "0") /\ (REq(b, "0") \/ REq(c, "0"))),
           D |-> {MZero(B)}, tol |-> "0"]
     ELSE [any |-> FALSE,
           D |-> {IF RLe(b, "0") /\ curv THEN MZero(B)
                  ELSE BroydenFormula(B, s, y, phi)},
           tol |-> IF RLe(b, "0") /\ curv THEN "0"
                   ELSE RMul("20", RMul(base, rel))]

SR1Upd(B, s, y, ds, dy) ==
  LET n == RInt(Len(s) + 2)
      u == MV(B, s)      nb == RMul(n, MMax(B))
      z == VSub(y, u)    nz == VNorm(z)   ns == VNorm(s)
      d == VDot(z, s)
      rs == RAdd(Rel(ds, ns), RMul("8", EPS))
      dz == RMul("2", RAdd(RMul(RMul(nb, ns), rs),
                           RAdd(dy, RMul(RMul("8", EPS), VNorm(y)))))
      rz == Rel(dz, nz)
      thr == RMul(SQRTEPS, RMul(ns, nz))
      ed == RMul("2", RMul(RMul(nz, ns), RAdd(rs, rz)))
      ad == RAbs(d)
      \* z is rounding noise, or d is undecidable at the threshold
      noise == RLe("0.001", rz)
      amb == RLe(RAbs(RSub(ad, thr)), RAdd(RMul("1E-6", thr), ed))
  IN IF REq(nz, "0") /\ REq(ds, "0") /\ REq(dy, "0")
     THEN [any |-> FALSE, D |-> {MZero(B)}, tol |-> RMul("1E-12", MMax(B))]
     ELSE IF noise THEN [any |-> TRUE, D |-> {MZero(B)}, tol |-> "0"]
     ELSE LET ok == RLt(thr, ad)
              t == IF RLe(RMul(ad, "0.5"), ed) THEN "inf"
                   ELSE RMul("20", RMul(RDiv(RSq(nz), ad),
                          RAdd(RMul("2", rz), RDiv(ed, ad))))
          IN [any |-> ~RFin(t),
              D |-> IF amb THEN {MZero(B)} \cup (IF REq(d, "0") THEN {} ELSE {SR1Formula(B, s, y)})
                    ELSE IF ok THEN {SR1Formula(B, s, y)} ELSE {MZero(B)},
              tol |-> IF ok \/ amb THEN t ELSE "0"]

BGUpd(B, s, y, ds, dy) ==
  LET n == RInt(Len(s) + 2)
      nb == RMul(n, MMax(B))   ns == VNorm(s)
      z == VSub(y, MV(B, s))   nz == VNorm(z)
      rs == RAdd(Rel(ds, ns), RMul("8", EPS))
      dz == RMul("2", RAdd(RMul(RMul(nb, ns), rs),
                           RAdd(dy, RMul(RMul("8", EPS), VNorm(y)))))
  IN IF REq(ns, "0") THEN [any |-> TRUE, D |-> {MZero(B)}, tol |-> "0"]
     ELSE [any |-> FALSE, D |-> {BGFormula(B, s, y)},
      tol |-> RMul("8", RAdd(RDiv(dz, ns), RMul(RDiv(nz, ns), RMul(n, rs))))]

BBUpd(B, s, y, ds, dy) ==
  LET n == RInt(Len(s) + 2)
      nb == RMul(n, MMax(B))   ns == VNorm(s)   ny == VNorm(y)
      z == VSub(y, MV(B, s))   nz == VNorm(z)
      b == VDot(y, s)          ab == RAbs(b)
      rs == RAdd(Rel(ds, ns), RMul("8", EPS))
      ry == RAdd(Rel(dy, ny), RMul("8", EPS))
      dz == RMul("2", RAdd(RMul(RMul(nb, ns), rs),
                           RAdd(dy, RMul(RMul("8", EPS), ny))))
      eb == RMul("4", RMul(RMul(ny, ns), RMul(n, RAdd(rs, ry))))
      amb == RLe(RMul(ab, "0.01"), eb)
  IN IF amb THEN [any |-> ~(REq(b, "0") /\ REq(ds, "0") /\ REq(dy, "0")),
                  D |-> {MZero(B)}, tol |-> "0"]
     ELSE [any |-> FALSE,
           D |-> {IF RLe(b, "0") THEN MZero(B) ELSE BBFormula(B, s, y)},
           tol |-> RMul("8", RAdd(RDiv(RMul(dz, ns), ab),
                     RMul(RDiv(RMul(nz, ns), ab), RAdd(RMul(n, rs), RDiv(eb, ab)))))]

IterativeNames == {"BFGS", "DFP", "Broyden", "SR1", "BG", "BB"}
IterUpd(sch, B, s, y, ds, dy) ==
  CASE sch.name \in {"BFGS", "DFP", "Broyden"} ->
         BroydenUpd(B, s, y,
           CASE sch.name = "BFGS" -> "0" [] sch.name = "DFP" -> "1"
             [] OTHER -> sch.phi, sch.curv, ds, dy)
    [] sch.name = "SR1" -> SR1Upd(B, s, y, ds, dy)
    [] sch.name = "BG"  -> BGUpd(B, s, y, ds, dy)
    [] sch.name = "BB"  -> BBUpd(B, s, y, ds, dy)

\* slack for adding the change to B in floating point
AddTol(B, D) == RMul("4", RMul(EPS, RAdd(MMax(B), MMax(D))))

\* observed matrix A is B changed by a permitted update
Permitted(upd, B, A) ==
  \/ upd.any /\ MFin(A)
  \/ \E D \in upd.D :
       MNear(A, MAdd(B, D), RAdd(upd.tol, AddTol(B, D)))

(* structured part: S is a matrix that the update U (a change) is divided by.  *)
PermittedDiv(upd, r, B, A) ==
  \/ upd.any /\ MFin(A)
  \/ \E D \in upd.D : LET C == MScl(RDiv("1", r), D) IN
       MNear(A, MAdd(B, C), RAdd(RDiv(upd.tol, r), RMul("4", AddTol(B, C))))
============================================================================
