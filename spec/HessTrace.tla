------------------------------ MODULE HessTrace ----------------------------
(* Judges recorded sequences of operations on Hessian approximations.         *)
EXTENDS HessRules, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
Has(r, f) == f \in DOMAIN r
VARIABLES i, k, sw
vars == <<i, k, sw>>
C == Cases[i]
Sch == C.scheme
Op == C.ops[k]
\* state before operation k: what was recorded after the previous one
Before == LET p == C.ops[k - 1] IN
  [h |-> MDbl(p.h), inner |-> IF Has(p, "inner") THEN MDbl(p.inner) ELSE MDbl(p.h),
   A |-> IF Has(p, "A") THEN MDbl(p.A) ELSE MDbl(p.h), sw |-> sw]
Iter == Sch.name \in IterativeNames
P == IF Iter THEN "C13" ELSE "C14"
Input(op) == [f \in DOMAIN op.u |->
   CASE f \in {"s", "y", "r", "rprev", "yb"} -> VDbl(op.u[f]) [] f = "hess" -> MDbl(op.u[f])
     [] OTHER -> op.u[f]]

InitClauses ==
  LET o == Op IN
  IF o.valid = "no" THEN <<<<"C13.refused", o.err = "ValueError">>>>
  ELSE IF o.err # "" THEN <<<<"C13.accepted", FALSE>>>>
  ELSE <<
    <<"C13.fresh", MEq(o.h, IF o.given = "none" THEN MEye(o.dim) ELSE o.h0)>>,
    <<"C13.freshdiff", REq(MMax(o.diff), "0") /\ Len(o.diff) = o.dim>>,
    <<"C14.inner0", Has(o, "inner") => MEq(o.inner, o.h)>>,
    \* the structured part starts (again) from nothing
    <<"C14.A0", Has(o, "A") => RLe(MMax(o.A), "1E-12")>>,
    <<"C14.diff0", Has(o, "sdiff") => REq(MMax(o.sdiff), "0")>> >>
(* nothing that was handed in or out is shared with the approximation          *)
AliasClauses ==
  LET o == Op  p == C.ops[k - 1] IN <<
    <<"C13.copies", MEq(o.h, p.h) /\ MEq(o.diff, p.diff)>>,
    <<"C14.copies", (Has(o, "sdiff") => MEq(o.sdiff, p.sdiff))
                    /\ (Has(o, "A") => MEq(o.A, p.A)) /\ (Has(o, "inner") => MEq(o.inner, p.inner))>> >>
UpdateClauses ==
  LET o == Op  st == Before  u == Input(o)
      z == SecantChange(Sch, st, u)
      n == Len(u.s)
      big == RAdd(MMax(o.h), MMax(st.h))
      amb == ~Decided(Sch, u)
      sec == ~Dynamic(Sch, u) /\ ~LowCurvature(Sch, u) /\ ~ZeroRes(Sch, u)
      w == IF Sch.name = "TSSM" THEN VNorm(u.r) ELSE "1"
      gnid == MNear(o.h, MAdd(u.hess, MScl(VNorm(u.r), MEye(n))),
                    RMul("1E-13", RAdd(MMax(u.hess), VNorm(u.r)))) /\ MEq(MDbl(o.A), st.A)
      sum == MNear(o.h, MAdd(u.hess, MScl(w, o.A)),
                   RMul("1E-13", RAdd(MMax(u.hess), RMul(w, MMax(o.A)))))
      aok == IF Sch.name = "TSSM"
             THEN PermittedDiv(z, w, st.A, o.A) ELSE Permitted(z, st.A, o.A)
      ok == CASE Iter -> Permitted(z, st.h, o.h)
              [] Sch.name \in Hybrids ->
                   /\ Permitted(z, st.inner, o.inner)
                   /\ IF sw THEN MEq(o.h, o.inner) ELSE MEq(MDbl(o.h), u.hess)
              [] Sch.name = "FX" ->
                   (((sec \/ amb) /\ Permitted(z, st.h, o.h)) \/ ((~sec \/ amb) /\ MEq(MDbl(o.h), u.hess)))
              [] Sch.name = "GNSBFGS" ->
                   (((sec \/ amb) /\ aok /\ sum) \/ ((~sec \/ amb) /\ gnid))
              [] ZeroRes(Sch, u) -> MEq(MDbl(o.A), st.A) /\ MEq(MDbl(o.h), u.hess)
              [] OTHER -> aok /\ sum
      pd == MPsd(MSub(st.h, MScl(RMul("1E-10", MMax(st.h)), MEye(n))))
  IN IF o.err # "" THEN <<<<P \o ".error", FALSE>>>>
     ELSE IF ~MFin(o.h) \/ (Has(o, "A") /\ ~MFin(o.A)) THEN <<<<P \o ".finite", FALSE>>>>
     ELSE <<
    <<P \o ".update", ok>>,
    <<P \o ".diff", MNear(MDbl(o.diff), MSub(MDbl(o.h), st.h), RMul("1E-14", RAdd(big, MMax(o.diff))))>>,
    <<"C14.sdiff", Has(o, "sdiff") =>
        MNear(MDbl(o.sdiff), MSub(MDbl(o.A), st.A),
              RMul("1E-14", RAdd(MMax(o.A), RAdd(MMax(st.A), MMax(o.sdiff)))))>>,
    <<"C13.skip", (Sch.name \in {"BFGS", "DFP", "Broyden"} /\ Sch.curv
                   /\ RLt(VDot(u.y, u.s), RNeg(RMul("1E-14", RMul(VNorm(u.y), VNorm(u.s)))))) => MEq(MDbl(o.h), st.h)>>,
    <<"C13.definite", (Sch.name \in {"BFGS", "DFP", "Broyden"} /\ ~z.any /\ pd
                       /\ RLt("0", VDot(u.y, u.s))) =>
        MPsd(MAdd(MDbl(o.h), MScl(RAdd(RMul(RInt(n), z.tol), RMul("1E-12", MMax(o.h))), MEye(n))))>>,
    <<P \o ".model", (Has(o, "want") /\ ~amb) =>
        MNear(o.h, o.want, RMul("1E-7", RAdd("1", MMax(o.want))))>> >>

Clauses == CASE Op.op = "init" -> InitClauses
             [] Op.op = "alias" -> AliasClauses
             [] Op.op = "update" -> UpdateClauses
Init == i \in DOMAIN Cases /\ k = 1 /\ sw = FALSE
Next == /\ k <= Len(C.ops)
        /\ k' = k + 1 /\ i' = i
        /\ sw' = CASE Op.op = "init" -> FALSE
                   [] Op.op = "update" -> Switched(Sch, [sw |-> sw], Op.u)
                   [] OTHER -> sw
        /\ LET cl == Clauses
               f == SelectSeq(cl, LAMBDA c : ~c[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, k |-> k, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_vars
Steps == LET RECURSIVE sum(_) sum(a) == IF a = 0 THEN 0 ELSE 1 + Len(Cases[a].ops) + sum(a - 1)
         IN sum(Len(Cases))
Complete == TLCGet("stats").distinct = Steps
=============================================================================
