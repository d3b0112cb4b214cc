------------------------------ MODULE Steihaug -----------------------------
(* The truncated conjugate gradient iteration as a state machine, one state   *)
(* per iterate, over a menu of small problems with convex, singular and       *)
(* indefinite models.  Its behaviours are replayed into the code.             *)
EXTENDS SolverRules, Json, IOUtils, TLC

Quick == IOEnv.QUICK = "1"
Diag == {"-4", "-0.5", "0", "0.25", "1", "3"}
Off == {"0", "0.75", "-2"}
Gs == {"0", "1", "-0.0625", "4"}
Deltas == {"0.0625", "1", "5", "100"}
Mats2 == {<<<<a, b>>, <<b, c>>>> : a \in Diag, b \in Off, c \in Diag}
Mats3 == {<<<<a, b, "0">>, <<b, c, d>>, <<"0", d, e>>>> :
            a \in {"1", "-0.5"}, b \in {"0", "0.75"}, c \in {"3", "0.25"}, d \in {"0.5", "-2"},
            e \in {"4", "-1"}}
Mats4 == {<<<<"2", a, "0", b>>, <<a, "1", "0.25", "0">>, <<"0", "0.25", "0.5", c>>, <<b, "0", c, d>>>> :
            a \in {"0", "0.5"}, b \in {"0", "-0.25"}, c \in {"0", "0.125"}, d \in {"8", "-8", "0.125"}}
VARIABLES b, g, delta, st
vars == <<b, g, delta, st>>

Init ==
  /\ delta \in Deltas
  /\ \/ /\ b \in Mats2
        /\ g \in {<<x, y>> : x \in Gs, y \in Gs}
     \/ /\ b \in Mats3
        /\ g \in {<<x, y, z>> : x \in Gs, y \in (IF Quick THEN {"1"} ELSE Gs), z \in {"0", "1", "-3"}}
     \/ /\ b \in Mats4
        /\ g \in {<<x, y, z, "1">> : x \in (IF Quick THEN {"1"} ELSE Gs), y \in {"1", "-2"}, z \in {"0", "0.5"}}
  /\ st = CgStart(g)
Tell == PrintT("@@" \o ToJson([b |-> b, g |-> g, delta |-> delta, s |-> st'.s, end |-> st'.end,
                               clear |-> st'.clear, its |-> st'.its]))
Next ==
  /\ st.end = ""
  /\ st' = CgStep(b, g, delta, st)
  /\ UNCHANGED <<b, g, delta>>
  /\ IF st'.end = "" THEN TRUE ELSE Tell
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
One == "1.0000000000000000000000000000000000000001"
q(s) == Value(b, g, s)
Tiny(s) == RMul("1E-40", RAdd("1", RAbs(q(s))))
InRegion == RLe(VNorm(st.s), RMul(delta, One)) /\ RLe(VNorm(st.z), RMul(delta, One))
\* residual and iterate belong together, directions are conjugate to what was done
Residual == LET r == VAdd(MV(b, st.z), g) IN
  st.end = "" => RLe(VNormInf(VSub(r, st.r)), "1E-40")
Conjugate == (st.end = "" /\ st.its > 0) => RNear(VDot(st.z, MV(b, st.d)), "0", "1E-35")
\* ends after at most one iteration per dimension
Ends == /\ st.its <= Len(g)
        /\ st.end = "" /\ st.its = Len(g) => FALSE
\* the step is at least as good as steepest descent
Cauchy == st.end \notin {"", "zero"} =>
  RLe(q(st.s), RAdd(SteepestDescent(b, g, delta), Tiny(st.s)))
Reason == /\ st.end = "converged" => RLt(VNorm(VAdd(MV(b, st.s), g)), CgTol(g))
          /\ st.end \in {"boundary", "curvature"} => RNear(VNorm(st.s), delta, RMul("1E-40", delta))
          /\ st.end = "curvature" => RLe(QF(b, st.d), "0")
\* iterates become longer and better
Progress == [][/\ RLe(VNorm(st.s), RMul(VNorm(st'.s), One))
               /\ RLt(q(st'.s), RAdd(q(st.s), Tiny(st.s)))]_vars
=============================================================================
