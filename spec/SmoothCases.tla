---------------------------- MODULE SmoothCases ----------------------------
(* Prints every case of Smooth, checked for soundness first. *)
EXTENDS Smooth
VARIABLES k, done
Init == k \in 1..Total /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET q == CaseOf(k) IN Assert(Sound(q), <<"unsound case", q>>) /\ PrintT("@@" \o ToJson(q))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
