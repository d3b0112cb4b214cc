---------------------------- MODULE SmoothTrace ----------------------------
(* Judges completed runs on the problems of Smooth, grouped by Hessian scheme. *)
EXTENDS Smooth

Groups == JsonDeserialize(IOEnv.SMOOTH)
Problems == JsonDeserialize(IOEnv.PROBLEMS)
ExactNames == {"exact", "HybridFixed", "HybridFraction"}
\* converge slowly by nature (DFP corrects a too large curvature badly)
SlowNames == {"BG", "BB", "GNSBFGS"}

(* How far from stationary a run may end with default tolerances: limits and   *)
(* the share of the runs (one in how many) that may be above.                  *)
StatQ(s) == IF s \in ExactNames THEN <<<<"0.00001", 20>>, <<"0.001", 100>>>>
            ELSE IF s = "DFP" THEN <<<<"0.001", 10>>, <<"0.01", 25>>>>
            ELSE IF s \in SlowNames THEN <<<<"0.01", 100>>>>
            ELSE <<<<"0.001", 20>>, <<"0.005", 100>>>>
\* the same for every single run
Worst(s) == IF s \in ExactNames THEN "0.02" ELSE "inf"
EvalQ(s) == IF s \in ExactNames THEN <<<<15, 2>>, <<25, 10>>, <<50, 100>>>>
            ELSE IF s = "BB" THEN <<<<40, 2>>, <<80, 10>>>>
            ELSE IF s = "DFP" THEN <<<<20, 2>>, <<40, 10>>>>
            ELSE IF s \in SlowNames THEN <<<<25, 2>>, <<50, 10>>, <<150, 100>>>>
            ELSE <<<<20, 2>>, <<35, 10>>, <<80, 100>>>>
MostExact == 300

P(run) == Problems[run.p]
Right(run) == run.err = "" /\ Len(run.x) = P(run).n /\ VFin(run.x)
Clauses(s, run) ==
  IF run.err # "" THEN <<[c |-> "C23.error", ok |-> FALSE]>>
  ELSE IF ~Right(run) THEN <<[c |-> "C23.point", ok |-> FALSE]>>
  ELSE LET q == P(run)
           v == Val(q, run.x)
       IN <<[c |-> "C23.feasible", ok |-> Feasible(q, run.x)],
            [c |-> "C23.value", ok |-> RLe(RAbs(RSub(run.f, v)), RMul("1E-9", RAdd("1", RAbs(v))))],
            [c |-> "C23.descent", ok |-> RLe(run.f, RAdd(Val(q, q.x0), "1E-9"))],
            [c |-> "C23.stationary", ok |-> RLe(Stationarity(q, run.x), Worst(s))],
            \* whoever sees the curvature does not stay at a saddle
            [c |-> "C23.curvature", ok |-> s \notin ExactNames \/ run.solver = "scg" \/ Curved(q, run.x, "0.01")],
            [c |-> "C23.effort", ok |-> s \notin ExactNames \/ run.evals <= MostExact]>>
Broken(s, run) == LET cl == Clauses(s, run) IN {cl[i].c : i \in {j \in DOMAIN cl : ~cl[j].ok}}

(* ---- shares ---- *)
Many == 100
Few(n, of, k) == of < Many \/ k * n <= of
GroupBroken(g) ==
  LET ok == {i \in DOMAIN g.runs : Right(g.runs[i])}
      st == [i \in ok |-> Stationarity(P(g.runs[i]), g.runs[i].x)]
      sq == StatQ(g.scheme)
      eq == EvalQ(g.scheme)
      saddle == {i \in ok : ~Curved(P(g.runs[i]), g.runs[i].x, "0.01")}
      N == Cardinality(ok)
  IN (IF \A j \in DOMAIN sq : Few(Cardinality({i \in ok : RLt(sq[j][1], st[i])}), N, sq[j][2])
        THEN {} ELSE {"C23.stationary.share"})
     \cup (IF \A j \in DOMAIN eq : Few(Cardinality({i \in ok : eq[j][1] < g.runs[i].evals}), N, eq[j][2])
        THEN {} ELSE {"C23.effort.share"})
     \cup (IF Few(Cardinality(saddle), N, IF g.scheme = "DFP" THEN 25 ELSE 100) THEN {} ELSE {"C23.curvature.share"})

VARIABLES t, done
Init == t \in DOMAIN Groups /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ t' = t
        /\ LET g == Groups[t]
               bad == {m \in DOMAIN g.runs : Broken(g.scheme, g.runs[m]) # {}}
               gb == GroupBroken(g)
           IN /\ gb = {} \/ PrintT("@@" \o ToJson([t |-> t, m |-> 0, c |-> gb, st |-> ""]))
              /\ \A m \in bad : PrintT("@@" \o ToJson(
                   [t |-> t, m |-> m, c |-> Broken(g.scheme, g.runs[m]),
                    st |-> IF Right(g.runs[m]) THEN Stationarity(P(g.runs[m]), g.runs[m].x) ELSE ""]))
Spec == Init /\ [][Next]_<<t, done>>
Complete == TLCGet("stats").distinct = 2 * Len(Groups)
=============================================================================
