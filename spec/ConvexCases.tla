---------------------------- MODULE ConvexCases ----------------------------
(* Prints every case of ConvexQP, checked for soundness first. *)
EXTENDS ConvexQP
VARIABLES k, done
Init == k \in 1..Total /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET q == CaseOf(k) IN Assert(Sound(q), <<"unsound case", q>>) /\ PrintT("@@" \o ToJson(q))
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
