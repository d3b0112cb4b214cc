------------------------------ MODULE StepTrace ----------------------------
(* Judges recorded calls of the step computation: the candidates that were    *)
(* generated, how they follow from one another, and which one was chosen.     *)
EXTENDS StepCase

Base == C.cands[1]
Cut == RLt(Base.alpha, "1") /\ N > 1
OfType(ty) == SelectSeq(C.cands, LAMBDA c : c.type = ty)
Alphas(cs) == [j \in DOMAIN cs |-> cs[j].alpha]
Total(c) == VAdd(VDbl(c.s), VDbl(c.s0))
TotalS(c) == VAdd(VDbl(c.ss), VDbl(c.ss0))

(* --------------------------- the call as a whole ------------------------- *)
\* model value of the stepped-back steepest descent step
Cauchy ==
  LET d == VScl("-1", SG)
      t == Line(B, SG, d, Delta, VZero(N)).arg
      og == VScl(t, VMul(D, d))
      al == Alpha(Th, Breaks(X, og, Lb, Ub))
  IN Value(B, SG, VScl(RMul(al, t), d))
CallClauses ==
  LET r == C.ret
      p == TotalS(r)   q == Value(B, SG, p)
      y == VAdd(X, Total(r))
      fin == VFin(r.s) /\ VFin(r.ss) /\ VFin(r.s0) /\ VFin(r.ss0) /\ RFin(r.qpval)
      nz == RLt("1E-200", VNorm(SG))
  IN IF ~fin THEN <<<<"C11.finite", FALSE>>>> ELSE
  <<<<"C11.feasible", \A j \in 1..N : LET sl == RMul("4", RAdd(RUlp(y[j]), RUlp(X[j]))) IN
        RLe(RSub(Lb[j], sl), y[j]) /\ RLe(y[j], RAdd(Ub[j], sl))>>,
    <<"C11.length", Within(p, Delta)>>,
    <<"C04.length", Within(p, Delta)>>,
    <<"C11.nonpos", RLe(q, QTol(p))>>,
    <<"C11.descent", nz => RLt(r.qpval, "0")>>,
    <<"C11.cauchy", (nz /\ (C.cut \/ N = 1)) => RLe(q, RAdd(RMul("0.9999999", Cauchy), QTol(p)))>>,
    <<"C11.best", \A j \in DOMAIN C.cands : RLe(r.qpval, C.cands[j].qpval)>>,
    <<"C11.chosen", C.cands = <<>> \/ \E j \in DOMAIN C.cands : VEq(Total(r), Total(C.cands[j]))
                       /\ REq(r.qpval, C.cands[j].qpval)>>,
    <<"C12.gradient", C.cands = <<>> \/ Len(OfType("g")) = (IF Cut THEN 1 ELSE 0)>>,
    <<"C12.reflections", C.cands = <<>> \/ ReflectionsOk(C.strategy, Cut, N, Alphas(OfType("trr")))>>,
    <<"C12.truncations", C.cands = <<>> \/ LET ts == OfType("trt") IN
        TruncationsOk(C.strategy, Cut, Alphas(ts), [j \in DOMAIN ts |-> ts[j].dim])>>,
    <<"C12.refined", C.cands = <<>> \/
        Len(OfType("ref")) = (IF Cut /\ C.strategy = "refine" /\ Base.dim > 1 THEN 1 ELSE 0)>>,
    \* without reflections nothing covers more than the fraction of the distance
    <<"C12.fraction", (C.strategy \in {"truncate", "refine"} \/ N = 1) =>
        \A j \in 1..N : LET s == Total(r)[j] IN
          RLe(RAbs(s), RAdd(RMul(RMul(Th, "1.00000001"),
                                 IF RLt("0", s) THEN RSub(Ub[j], X[j]) ELSE RSub(X[j], Lb[j])),
                            RMul("2", RUlp(X[j]))))>>
  >>

(* ------------------------------ one candidate ---------------------------- *)
\* predecessor of the j-th candidate among its own type
PredOf(j) ==
  LET c == C.cands[j]
      before == SelectSeq(SubSeq(C.cands, 1, j - 1), LAMBDA d : d.type = c.type)
  IN IF before = <<>> THEN Base ELSE before[Len(before)]
\* breakpoints of a candidate in exact arithmetic, and how well they are known
Brk(c) ==
  LET y == VAdd(X, VDbl(c.s0))   og == VDbl(c.og_s)
      b == Breaks(y, og, Lb, Ub)
  IN [b |-> b,
      e |-> [j \in 1..N |-> IF REq(og[j], "0") \/ ~RFin(b[j]) THEN "0" ELSE
              RAdd(RMul("1E-14", RAbs(b[j])),
                   RDiv(RMul("3", RAdd(RUlp(X[j]), RUlp(c.s0[j]))), RAbs(og[j])))],
      exact |-> \A j \in 1..N : REq(c.s0[j], "0")]
Lo(z) == MinOf([j \in 1..N |-> RSub(z.b[j], z.e[j])])
Hi(z) == MinOf([j \in 1..N |-> RAdd(z.b[j], z.e[j])])
\* variables that certainly / possibly hit first
May(z) == {j \in 1..N : RFin(z.b[j]) /\ RLe(RSub(z.b[j], z.e[j]), Hi(z))}
\* ties that are exact also in floating point: same numerator and denominator
Same(c, a, b) ==
  LET og == VDbl(c.og_s)
      num(j) == IF RLt("0", og[j]) THEN RSub(Ub[j], X[j]) ELSE RSub(X[j], Lb[j])
  IN REq(RAbs(og[a]), RAbs(og[b])) /\ REq(num(a), num(b))
Must(c, z) == IF Cardinality(May(z)) = 1 THEN May(z)
              ELSE IF ~z.exact THEN {}
              ELSE {j \in May(z) : REq(z.b[j], MinOf(z.b)) /\ \A a \in May(z) : Same(c, a, j)}
SetOk(R, c, z) == R # {} /\ R \subseteq May(z) /\ Must(c, z) \subseteq R
SizeTol(c) == RMul("1E-11", RAdd(VNorm(VDbl(c.og_ss)), RAdd(VNorm(VDbl(c.ss0)), "0")))
\* the step is the scaled step, cut at the fraction of the first breakpoint
StepClauses(c) ==
  LET z == Brk(c)
      og == VDbl(c.og_s)   ogs == VDbl(c.og_ss)
      s == VDbl(c.s)   ss == VDbl(c.ss)   s0 == VDbl(c.s0)   ss0 == VDbl(c.ss0)
      alo == RMin("1", RMul(Th, Lo(z)))
      ahi == RMin("1", RMul(Th, Hi(z)))
      p == VAdd(ss, ss0)
      near(a, b, j) == RNear(a, b, RMul("1E-11", RMax(RAbs(a), RAbs(b))))
  IN <<
   <<"C11.agree", \A j \in 1..N :
        /\ near(s[j], RMul(D[j], ss[j]), j)
        /\ RNear(s0[j], RMul(D[j], ss0[j]),
                 RAdd(RMul("1E-11", RMul(D[j], RAdd(RAbs(ss0[j]), VNorm(ss0)))), "1E-300"))>>,
   <<"C11.model", RNear(c.qpval, Value(B, SG, p), RMul("10", QTol(p)))>>,
   <<"C11.within", Within(p, Delta)>>,
   <<"C12.alpha", c.type = "ref" \/
        (/\ RLe(RSub(alo, "1E-15"), RDbl(c.alpha)) /\ RLe(RDbl(c.alpha), RAdd(ahi, "1E-15"))
         /\ \A j \in 1..N : RNear(s[j], RMul(RDbl(c.alpha), og[j]), RMul("1E-14", RAbs(og[j])))
         /\ \A j \in 1..N : RNear(ss[j], RMul(RDbl(c.alpha), ogs[j]), RMul("1E-14", RAbs(ogs[j]))))>>,
   <<"C12.cut", (c.type # "ref" /\ RLt(ahi, "0.999999")) => RLt(c.alpha, "1")>>
  >>
ReflectClauses(c, p) ==
  LET z == Brk(p)
      og == VDbl(p.og_s)   ogs == VDbl(p.og_ss)
      start == HitPoint(VDbl(p.s0), og, z.b)
      starts == HitPoint(VDbl(p.ss0), ogs, z.b)
      \* error of the start along the predecessor
      ea == RSub(RMin("1", Hi(z)), RMin("1", Lo(z)))
      dir == [j \in 1..N |-> RDbl(c.sub[j][1])]
      R == {j \in 1..N : RSgn(dir[j]) # RSgn(ogs[j])}
      u == Turn(ogs, R)
      nu == VNorm(u)
  IN <<
   <<"C12.start", \A j \in 1..N :
       /\ RNear(RDbl(c.s0[j]), start[j], RAdd(RMul(RAdd(ea, "1E-13"), RAbs(og[j])), RUlp(p.s0[j])))
       /\ RNear(RDbl(c.ss0[j]), starts[j], RAdd(RMul(RAdd(ea, "1E-13"), RAbs(ogs[j])), RUlp(p.ss0[j])))>>,
   <<"C12.turned", SetOk(R, p, z)>>,
   <<"C12.direction", /\ \A j \in 1..N : RNear(RMul(dir[j], nu), u[j], RMul("1E-11", nu))
                      /\ InSpan(VDbl(c.og_ss), c.sub, 1)>>,
   <<"C12.optimal", Optimal(c, c.sub, 1)>>
  >>
TruncateClauses(c, p) ==
  LET z == Brk(p)
      og == VDbl(p.og_s)   ogs == VDbl(p.og_ss)
      R == {j \in 1..N : ~REq(c.s0[j], p.s0[j])}
      s0 == Frozen(VDbl(p.s0), og, z.b, Th, R)
      ss0 == Frozen(VDbl(p.ss0), ogs, z.b, Th, R)
      frozen == {j \in 1..N : ~REq(c.s0[j], "0")}
      proj(u) == [j \in 1..N |-> IF j \in frozen THEN "0" ELSE u[j]]
      P == Cols(p.sub, p.dim)
      live == {a \in 1..p.dim : RLt("1E-9", VNorm(proj(P[a])))}
  IN <<
   \* a hit at distance zero leaves no trace in s0
   <<"C12.frozen", SetOk(R, p, z) \/ \E j \in May(z) : RLe(z.b[j], RAdd(z.e[j], "1E-13"))>>,
   <<"C12.start", \A j \in 1..N :
       /\ RNear(RDbl(c.s0[j]), s0[j], RMul(RAdd(z.e[j], "1E-13"), RAbs(og[j])))
       /\ RNear(RDbl(c.ss0[j]), ss0[j], RMul(RAdd(z.e[j], "1E-13"), RAbs(ogs[j])))>>,
   <<"C12.stays", \A j \in frozen : REq(c.s[j], "0") /\ REq(c.og_s[j], "0")>>,
   <<"C12.space", ZeroCol(c.sub, c.dim) \/
        (/\ Orthonormal(c.sub, c.dim)
         /\ c.dim <= p.dim
         /\ \A a \in live : InSpan(proj(P[a]), c.sub, c.dim))>>,
   <<"C12.optimal", ZeroCol(c.sub, c.dim) \/ Optimal(c, c.sub, c.dim)>>
  >>
GradientClauses(c) ==
  LET ogs == VDbl(c.og_ss)
      ln == Line(B, SG, VScl("-1", SG), Delta, VZero(N))
  IN IF ~RLt("1E-200", VNorm(SG)) THEN <<<<"C11.gradzero", RLe(VNorm(ogs), "1E-100")>>>>
     ELSE <<
   <<"C11.steepest", LET w == VScl(RNeg(ln.arg), SG) IN
        RLe(Value(B, SG, ogs), RAdd(RMul("0.9999999", ln.best), QTol(ogs)))
        /\ RNear(VDot(ogs, SG), RNeg(RMul(VNorm(ogs), VNorm(SG))),
                 RMul("1E-10", RMul(VNorm(ogs), VNorm(SG))))>> >>
BaseClauses(c) ==
  IF c.type = "cgs" THEN <<>>
  ELSE <<<<"C11.base", ZeroCol(c.sub, c.dim) \/ (Orthonormal(c.sub, c.dim) /\ Optimal(c, c.sub, c.dim))>>,
         <<"C11.whole", c.type # "nd" \/ c.dim = N>>>>
\* variables at which a reflected candidate was turned, over all its reflections
RECURSIVE Turned(_)
Turned(j) ==
  LET c == C.cands[j]
      before == {a \in 1..(j - 1) : C.cands[a].type = "trr"}
      q == IF before = {} THEN 1 ELSE CHOOSE a \in before : \A e \in before : e <= a
      ogs == VDbl(C.cands[q].og_ss)
  IN {a \in 1..N : RSgn(RDbl(c.sub[a][1])) # RSgn(ogs[a])} \cup (IF before = {} THEN {} ELSE Turned(q))
\* what is reported (in the history) as numbers of reflections and truncations
CountClauses(j) ==
  LET c == C.cands[j]  p == PredOf(j)  z == Brk(p)
      zero == \E a \in May(z) : RLe(z.b[a], RAdd(z.e[a], "1E-13"))
      atzero == \E a \in 1..N : REq(X[a], Lb[a]) \/ REq(X[a], Ub[a])
  IN IF ~Has(c, "nr") \/ ~Has(c, "nt") THEN <<>>
     ELSE <<<<"C16.counts",
       CASE c.type = "trr" -> c.nr = Cardinality(Turned(j)) /\ c.nt = 0
         [] c.type = "trt" -> c.nr = 0 /\ (zero \/ atzero \/
                                 c.nt = Cardinality({a \in 1..N : ~REq(c.s0[a], "0")}))
         [] OTHER -> c.nr = 0 /\ c.nt = 0>>>>
Complete_(c) == Has(c, "og_s") /\ Has(c, "sub") /\ VFin(c.og_s) /\ VFin(c.og_ss) /\ VFin(c.s) /\ VFin(c.ss)
                /\ VFin(c.s0) /\ VFin(c.ss0) /\ RFin(c.alpha) /\ RFin(c.qpval)
CandClauses(j) ==
  LET c == C.cands[j]  p == PredOf(j) IN
  IF ~Complete_(c) \/ ~Complete_(p) THEN <<>>
  ELSE CountClauses(j) \o StepClauses(c)
       \o (CASE j = 1 -> BaseClauses(c)
             [] c.type = "trr" -> ReflectClauses(c, p)
             [] c.type = "trt" -> TruncateClauses(c, p)
             [] c.type = "g" -> GradientClauses(c)
             [] OTHER -> <<>>)

(* ------------------------------------------------------------------------ *)
Init == i \in DOMAIN Cases /\ k = 0
Next == /\ k <= Len(C.cands)
        /\ k' = k + 1 /\ i' = i
        /\ LET cl == IF k = 0 THEN CallClauses ELSE CandClauses(k)
               f == SelectSeq(cl, LAMBDA c : ~c[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, k |-> k, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_vars
Steps == LET RECURSIVE sum(_) sum(a) == IF a = 0 THEN 0 ELSE 2 + Len(Cases[a].cands) + sum(a - 1)
         IN sum(Len(Cases))
Complete == TLCGet("stats").distinct = Steps
=============================================================================
