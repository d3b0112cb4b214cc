----------------------------- MODULE HessMachine ---------------------------
(* The Hessian approximation schemes as state machines in exact arithmetic.   *)
(* TLC explores every sequence of updates from a menu, checks the equations   *)
(* that define the schemes, and prints every sequence with the matrices that  *)
(* must result; the harness replays them into the real classes.               *)
EXTENDS HessRules, Json, IOUtils, TLC

Input == JsonDeserialize(IOEnv.CONFIGS)
Schemes == Input.schemes      \* scheme, initial matrix
Depth == Input.depth
VARIABLES c, st, sh, log, last, blur
vars == <<c, st, sh, log, last, blur>>
Sch == Schemes[c].scheme
Menu == Schemes[c].menu
Start == [h |-> Schemes[c].h0, inner |-> Schemes[c].h0,
          A |-> MScl(EPS, MEye(2)), sw |-> FALSE]
None == [s |-> <<>>, from |-> <<>>, D |-> <<>>]
Init == /\ c \in DOMAIN Schemes
        /\ st = Start
        /\ sh = Start
        /\ log = <<>>
        /\ last = None
        /\ blur = FALSE
Clear(z) == ~z.any /\ Cardinality(z.D) = 1
(* sh follows the same updates with a disturbance after each of them: the      *)
(* results are comparable to floating point only if both stay close.           *)
Noise(M) == MAdd(M, MScl(RMul("1E-13", RAdd("1", MMax(M))), <<<<"1", "-1">>, <<"-1", "2">>>>))
Disturbed(q) == [q EXCEPT !.h = Noise(q.h), !.A = Noise(q.A), !.inner = Noise(q.inner)]
\* the structured part along the step is more than rounding errors of the matrix
Safe(u) == Sch.name \notin {"SSM", "TSSM"} \/
   RGt(RAbs(VDot(MV(MAdd(u.hess, MScl(IF Sch.name = "TSSM" THEN VNorm(u.r) ELSE "1", st.A)), u.s), u.s)),
       RMul("1E-12", VDot(u.s, u.s)))
Update(u) ==
  /\ Len(log) < Depth /\ ~blur
  /\ LET z == SecantChange(Sch, st, u)
         needs == ~Dynamic(Sch, u) /\ ~LowCurvature(Sch, u) /\ ~ZeroRes(Sch, u)
         ok == Decided(Sch, u) /\ (needs => Clear(z))
         D == CHOOSE d \in z.D : TRUE
         nx == IF ok THEN Follow(Sch, st, u, IF needs THEN D ELSE MZero(st.h)) ELSE st
         zs == SecantChange(Sch, sh, u)
         oks == ok /\ (needs => Clear(zs))
         ns == IF oks THEN Disturbed(Follow(Sch, sh, u, IF needs THEN CHOOSE d \in zs.D : TRUE
                                                         ELSE MZero(st.h)))
               ELSE Disturbed(nx)
         item == [u |-> u, h |-> nx.h, A |-> nx.A, inner |-> nx.inner, ok |-> ok,
                  cmp |-> oks /\ Safe(u) /\ (log = <<>> \/ log[Len(log)].cmp)
                          /\ MNear(ns.A, nx.A, RMul("1E-10", RAdd("1", MMax(nx.A))))
                          /\ MNear(ns.h, nx.h, RMul("1E-10", RAdd("1", MMax(nx.h))))]
     IN /\ st' = nx
        /\ sh' = ns
        /\ log' = Append(log, item)
        /\ blur' = ~ok
        /\ last' = IF ok THEN [s |-> u.s, u |-> u, from |-> st, D |-> IF needs THEN D ELSE MZero(st.h),
                               needs |-> needs] ELSE None
        /\ (Len(log') = Depth \/ ~ok) =>
             PrintT("@@" \o ToJson([c |-> c, log |-> log']))
        /\ c' = c
Next == \E m \in DOMAIN Menu : Update(Menu[m])
Spec == Init /\ [][Next]_vars

(* ------------------------------- equations ------------------------------- *)
Applied == last.s # <<>> /\ last.needs
Zero(D) == REq(MMax(D), "0")
Tiny == "1E-40"
Same(u, w) == RLe(VNorm(VSub(u, w)), RMul(Tiny, RAdd("1", RAdd(VNorm(u), VNorm(w)))))
SecantNames == {"BFGS", "DFP", "Broyden", "SR1", "BG"}
\* the applied update satisfies the secant equation
C13_Secant == (Applied /\ Sch.name \in SecantNames /\ ~Zero(last.D)) =>
                 Same(MV(st.h, last.s), last.u.y)
Transposed(M) == <<<<M[1][1], M[2][1]>>, <<M[1][2], M[2][2]>>>>
SymmetricUpTo(M) == MNear(M, Transposed(M), RMul(Tiny, RAdd("1", MMax(M))))
C13_Symmetric == (Sch.name \notin {"BG", "BB"}) => SymmetricUpTo(st.h)
C13_Definite ==
  (Applied /\ Sch.name \in {"BFGS", "DFP", "Broyden"}
     /\ RLt("0", VDot(last.u.y, last.s)) /\ MPsd(MSub(last.from.h, MScl("1E-30", MEye(2))))) =>
     MPsd(MAdd(st.h, MScl(RMul(Tiny, RAdd("1", MMax(st.h))), MEye(2))))
C13_Skips == (Applied /\ Sch.name \in {"BFGS", "DFP", "Broyden"} /\ Sch.curv
              /\ RLe(VDot(last.u.y, last.s), "0")) => st.h = last.from.h
C13_Convex ==    \* the change is the convex combination
  (Applied /\ Sch.name = "Broyden" /\ ~Zero(last.D)) =>
     MNear(last.D, MAdd(MScl(RSub("1", Sch.phi), BFGSFormula(last.from.h, last.s, last.u.y)),
                        MScl(Sch.phi, DFPFormula(last.from.h, last.s, last.u.y))),
           RMul(Tiny, RAdd("1", MMax(last.D))))
\* good Broyden: the change vanishes on everything orthogonal to the step
C13_LeastChange == (Applied /\ Sch.name = "BG") =>
   Same(MV(last.D, <<RNeg(last.s[2]), last.s[1]>>), VZero(2))
C13_Positive == (Applied /\ Sch.name = "BB" /\ RLe(VDot(last.u.y, last.s), "0")) => Zero(last.D)
C14_Irreversible == [][st.sw => st'.sw]_vars
C14_Hybrid == (last.s # <<>> /\ Sch.name \in Hybrids) =>
                 st.h = IF last.from.sw THEN st.inner ELSE last.u.hess
C14_Structured ==
  (Applied /\ Sch.name \in {"SSM", "TSSM"} /\ ~Zero(last.D)) =>
     Same(MV(st.h, last.s), VAdd(MV(last.u.hess, last.s), last.u.yb))
C14_Residual ==
  (Applied /\ Sch.name = "GNSBFGS" /\ ~Zero(last.D)) =>
     Same(MV(st.h, last.s), VAdd(MV(last.u.hess, last.s), last.u.yb))
C14_FX == (last.s # <<>> /\ Sch.name = "FX" /\ ~last.needs) => st.h = last.u.hess
Finite == MFin(st.h) /\ MFin(st.A) /\ MFin(st.inner)
=============================================================================
