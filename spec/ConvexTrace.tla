---------------------------- MODULE ConvexTrace ----------------------------
(* Judges completed runs on the problems of ConvexQP. *)
EXTENDS ConvexQP

Cases == JsonDeserialize(IOEnv.CONVEX)
(* A hundred times the default function tolerances.  The structured BFGS scheme *)
(* converges linearly if the residuals are large, with up to hundreds of        *)
(* iterations; the sum of the decreases that are left when one of them is below *)
(* the tolerance is correspondingly larger.                                     *)
Allowed(q, run) == RMul(IF run.scheme = "GNSBFGS" THEN "0.00001" ELSE "0.000001", RAdd("1", RAbs(Best(q, run.ls))))
Most == 900     \* evaluations

Clauses(q, run) ==
  IF run.err # "" THEN <<[c |-> "C18.error", ok |-> FALSE]>>
  ELSE <<[c |-> "C18.feasible", ok |-> Len(run.x) = q.n /\ VFin(run.x) /\ Feasible(q, run.x)],
         [c |-> "C18.minimum", ok |-> RLe(Gap(q, run.x), Allowed(q, run))],
         [c |-> "C18.value", ok |-> RLe(RAbs(RSub(run.f, RAdd(Best(q, run.ls), Gap(q, run.x)))),
                                        RMul("1E-9", RAdd("1", RAbs(Best(q, run.ls)))))],
         [c |-> "C18.effort", ok |-> run.evals <= Most]>>
(* Runs are rarely long (zigzagging between bounds can happen).  Of the runs of  *)
(* a scheme at most half may take more than 20 evaluations, a tenth more than   *)
(* 30 and a hundredth more than 60.  The structured BFGS scheme takes longer.    *)
Quantiles(s) == IF s.scheme = "GNSBFGS" THEN <<<<60, 2>>, <<250, 10>>>> ELSE <<<<20, 2>>, <<30, 10>>, <<60, 100>>>>
Above(s, m) == Cardinality({i \in DOMAIN s.evals : s.evals[i] > m})
Rate(s) == \A i \in DOMAIN Quantiles(s) : Len(s.evals) < 200 \/ Quantiles(s)[i][2] * Above(s, Quantiles(s)[i][1]) <= Len(s.evals)
Broken(q, run) == LET cl == Clauses(q, run) IN {cl[i].c : i \in {j \in DOMAIN cl : ~cl[j].ok}}

VARIABLES t, done
Init == t \in DOMAIN Cases /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ t' = t
        /\ LET q == Cases[t]
               bad == {m \in DOMAIN q.runs : Broken(q, q.runs[m]) # {}}
           IN /\ \A m \in DOMAIN q.sums : \/ Rate(q.sums[m])
                                           \/ PrintT("@@" \o ToJson([t |-> t, m |-> 0, c |-> q.sums[m], gap |-> ""]))
              /\ \A m \in bad : PrintT("@@" \o ToJson([t |-> t, m |-> m, c |-> Broken(q, q.runs[m]),
                                                    gap |-> IF q.runs[m].err = "" THEN Gap(q, q.runs[m].x) ELSE ""]))
Spec == Init /\ [][Next]_<<t, done>>
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
