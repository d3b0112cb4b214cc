---------------------------- MODULE StepBackTrace --------------------------
(* Replays of StepBack.tla: the candidates generated by the code and the one   *)
(* it chose are those of the behaviour of the specification.                   *)
EXTENDS R60, Integers, Sequences, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
Near(u, v) == Len(u) = Len(v) /\ \A j \in DOMAIN u :
                RFin(u[j]) /\ RNear(RDbl(u[j]), v[j], RMul("0.0000001", RAdd(VNormInf(v), "0.000001")))
Clauses(c) ==
  LET m == c.model.cands IN
  <<<<"C11.chosen_model", \E j \in DOMAIN c.model.picks : Near(c.total, m[c.model.picks[j]].total)>>,
    <<"C12.sequence", c.cands = <<>> \/
        (Len(c.cands) = Len(m) /\ \A j \in DOMAIN m : c.cands[j].type = m[j].type)>>,
    <<"C12.candidates", c.cands = <<>> \/ \A j \in DOMAIN m : j \in DOMAIN c.cands =>
        /\ Near(c.cands[j].total, m[j].total)
        /\ RNear(c.cands[j].alpha, m[j].alpha, "0.0000001")>>,
    <<"C12.dimension", c.cands = <<>> \/ \A j \in DOMAIN m :
        (j \in DOMAIN c.cands /\ m[j].type = "trt" /\ c.cands[j].dim >= 0) =>
        c.cands[j].dim <= m[j].dim>> >>
VARIABLES i, judged
Init == i \in DOMAIN Cases /\ judged = FALSE
Next == /\ ~judged
        /\ judged' = TRUE
        /\ i' = i
        /\ LET cl == Clauses(Cases[i])
               f == SelectSeq(cl, LAMBDA c : ~c[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_<<i, judged>>
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
