------------------------------ MODULE HistFile ------------------------------
(* The history file under several runs: the machine that generates sessions   *)
(* (Spec), and the rules a recorded session must obey (Rules of one step).     *)
(* A file is a function from group names to contents.                          *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Menu == JsonDeserialize(IOEnv.CONFIGS)
Depth == Menu.depth
Opts == 1..Menu.optimizers
\* ok: returns; limit: iteration limit 0 (no iterations); raise: the objective
\* raises; nan: ends with a non-finite gradient; outside: start refused;
\* kill: interrupted in an evaluation; nest: another optimizer runs inside
Kinds == {Menu.kinds[j] : j \in DOMAIN Menu.kinds}
Ids == {Menu.ids[j] : j \in DOMAIN Menu.ids}          \* "" : no start id given

VARIABLES file, log, done
vars == <<file, log, done>>
Init == file = {} /\ log = <<>> /\ done = FALSE
Returns(o) == o.kind \in {"ok", "short", "nest"}
\* names that are taken after the operation ("" stands for unique new names)
Do(o) ==
  /\ ~done /\ Len(log) < Depth
  /\ log' = Append(log, o)
  /\ file' = IF Returns(o) /\ o.id # "" THEN file \cup {o.id} ELSE file
  /\ UNCHANGED done
Finish == /\ ~done /\ Len(log) = Depth /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([ops |-> log]))
          /\ UNCHANGED <<file, log>>
Next == (\E p \in Opts, k \in Kinds, d \in Ids : Do([opt |-> p, kind |-> k, id |-> d])) \/ Finish
Spec == Init /\ [][Next]_vars
\* groups never disappear
Grows == [][file \subseteq file']_vars
=============================================================================
