---------------------------- MODULE HistFileTrace ---------------------------
(* Judges recorded sessions on a history file.  After each operation the file  *)
(* is recorded as a function from group names to contents.                     *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Memo == JsonDeserialize(IOEnv.MEMO)    \* problem -> contents that its run must leave
VARIABLES i, k, file, stray
vars == <<i, k, file, stray>>
C == Cases[i]
Op == C.ops[k]
New == DOMAIN Op.file \ DOMAIN file
\* the runs that took place in this operation, in the order of their ends
RECURSIVE Effect(_, _)
\* names that must be there after the first j runs; runs without id take one new name each
Effect(f, j) == IF j = 0 THEN f ELSE
  LET r == Op.runs[j]  g == Effect(f, j - 1) IN
  IF ~r.returns \/ r.id = "" THEN g ELSE g \cup {r.id}
Anonymous == Cardinality({j \in DOMAIN Op.runs : Op.runs[j].returns /\ Op.runs[j].id = ""
                                                 /\ Op.runs[j].ended = "return"})
Named == Effect(DOMAIN file, Len(Op.runs))
Clauses == <<
  \* groups of earlier runs are there and unchanged
  <<"C16.append", \A nm \in DOMAIN file : nm \in DOMAIN Op.file /\ Op.file[nm] = file[nm]>>,
  \* exactly one group per run that returned
  <<"C16.groups", /\ Named \subseteq DOMAIN Op.file
                  /\ Cardinality(DOMAIN Op.file \ Named) = Anonymous>>,
  \* with the contents of that run
  <<"C16.contents", \A nm \in New \cap Named :
      \E j \in DOMAIN Op.runs : Op.runs[j].id = nm /\ Op.file[nm] = Memo[Op.runs[j].key]>>,
  <<"C16.anonymous", \A nm \in New \ Named :
      \E j \in DOMAIN Op.runs : Op.runs[j].id = "" /\ Op.file[nm] = Memo[Op.runs[j].key]>>,
  \* a run that returns is recorded: only a name that is taken may be refused
  <<"C16.refused", \A j \in DOMAIN Op.runs : LET r == Op.runs[j] IN
      (r.returns /\ r.ended # "return") => (r.id # "" /\ r.id \in Effect(DOMAIN file, j - 1))>>,
  <<"C16.exact", \A j \in DOMAIN Op.runs : LET r == Op.runs[j] IN
      ~r.returns => r.ended # "return">>,
  \* nothing else appears next to the file
  <<"C16.stray", Op.stray = stray>> >>
Init == i \in DOMAIN Cases /\ k = 1 /\ file = Cases[i].file /\ stray = Cases[i].stray
Next == /\ k <= Len(C.ops)
        /\ k' = k + 1 /\ i' = i /\ file' = Op.file /\ stray' = Op.stray
        /\ LET cl == Clauses
               f == SelectSeq(cl, LAMBDA z : ~z[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, k |-> k, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_vars
Steps == LET RECURSIVE sum(_) sum(a) == IF a = 0 THEN 0 ELSE 1 + Len(Cases[a].ops) + sum(a - 1)
         IN sum(Len(Cases))
Complete == TLCGet("stats").distinct = Steps
=============================================================================
