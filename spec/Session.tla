------------------------------- MODULE Session ------------------------------
(* Sessions: sequences of runs on two optimizers.                             *)
(*                                                                            *)
(* The state of a session is what the caller holds: per slot the optimizer    *)
(* (problem, whether its Hessian scheme object was used before), the results  *)
(* of earlier runs, and the caller's own objects.  A run is a function of its  *)
(* inputs: nothing in this state but the problem of the slot and the inputs of *)
(* the run enters Key.  TLC enumerates the sessions; SessionTrace judges what  *)
(* the real code did in them.                                                  *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Menu == JsonDeserialize(IOEnv.CONFIGS)
Pairs == Menu.pairs         \* [p |-> <<problem 1, problem 2>>, verb, hist]
Inputs == Menu.inputs       \* names of run inputs
Depth == Menu.depth
Last == Menu.last           \* input of the run that ends every session
Schedules == {sch \in [1..4 -> {1, 2}] : 1 \in {sch[j] : j \in 1..4} /\ 2 \in {sch[j] : j \in 1..4}}

VARIABLES c, log, used, done
vars == <<c, log, used, done>>
Conf == Pairs[c]
Key(slot, input) == <<Conf.p[slot], input>>

Ops == {[op |-> "run", slot |-> s, input |-> Inputs[i]] : s \in {1, 2}, i \in DOMAIN Inputs}
       \cup {[op |-> "renew", slot |-> s] : s \in {1, 2}}       \* new optimizer, same scheme object
       \cup {[op |-> "scribble"]}     \* the caller overwrites its copies of all results
Concurrent == {[op |-> "nest", slot |-> s] : s \in {1, 2}}      \* other optimizer runs inside
       \cup {[op |-> "mix", sched |-> sch] : sch \in Schedules}
       \cup {[op |-> "fresh", slot |-> s] : s \in {1, 2}}       \* everything new

Init == c \in DOMAIN Pairs /\ log = <<>> /\ used = {} /\ done = FALSE
Do(o) ==
  /\ ~done /\ Len(log) < Depth
  \* renewing or overwriting only matters after a run
  /\ (o.op \in {"renew", "fresh"} => o.slot \in used)
  /\ (o.op = "scribble" => used # {})
  /\ log' = Append(log, o)
  /\ used' = CASE o.op = "run" -> used \cup {o.slot}
               [] o.op \in {"nest", "mix"} -> {1, 2}
               [] OTHER -> used
  /\ UNCHANGED <<c, done>>
Finish ==
  /\ ~done /\ Len(log) = Depth
  /\ done' = TRUE
  /\ LET full == log \o << [op |-> "run", slot |-> 1, input |-> Last] >>
     IN log' = full /\ PrintT("@@" \o ToJson([c |-> c, ops |-> full]))
  /\ UNCHANGED <<c, used>>
Next == (\E o \in Ops \cup Concurrent : Do(o)) \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
