---------------------------- MODULE MirrorTrace ----------------------------
(* Symmetry of the behaviours: if D is a diagonal matrix of signs, then        *)
(*   x_0, x_1, ... is a behaviour for (f, lb, ub)                              *)
(*   => D x_0, D x_1, ... is the behaviour for (f o D, D mirrored bounds),     *)
(* because in the specification (Fides.tla, Rules.tla) every variable has one  *)
(* of two bounds selected by the sign of its gradient entry.  An entry that is *)
(* exactly zero selects the lower bound by convention, so the statement holds  *)
(* until the first such entry.  Each item has both runs, which are followed in *)
(* lockstep.                                                                   *)
(* Likewise nothing in the specification depends on the names (the order) of   *)
(* the variables, on the origin of their coordinates, or on a constant added   *)
(* to the objective: with a permutation p and shifts c the behaviours          *)
(* correspond by a[i] = d[i] b[p[i]] + c[i].  The unit of the objective (a     *)
(* factor fac > 1) only enters the fraction theta (Rules!Theta), close to a     *)
(* stationary point.                                                           *)
EXTENDS Rules, Json, IOUtils, TLC

Pairs == JsonDeserialize(IOEnv.MIRROR)
Tol == "0.000001"
VARIABLES t, k
P == Pairs[t]
Last == IF Len(P.a) < Len(P.b) THEN Len(P.a) ELSE Len(P.b)
Mirrored(u, v) == \A i \in DOMAIN u :
  RNear(u[i], RAdd(RMul(P.d[i], v[P.p[i]]), P.c[i]), RMul(Tol, RAdd("1", RAbs(u[i]))))
\* no (almost) zero entry in the gradients before point j
Generic(j) == \A m \in DOMAIN P.g : m < j => \A i \in DOMAIN P.g[m] : RLt("0.000000001", RAbs(P.g[m][i]))
\* shifting changes small distances to bounds by rounding: no point that close to one
Apart(j) == (\E i \in DOMAIN P.c : ~REq(P.c[i], "0")) =>
  \A m \in DOMAIN P.a : m < j => \A i \in DOMAIN P.a[m] : \A b \in {P.lb[i], P.ub[i]} :
    RFin(b) => RLt("0.0000001", RAbs(RSub(P.a[m][i], b)))
\* theta is theta_max at all points before j, also for the objective that is not multiplied
ThetaMax(j) == P.fac = "1" \/ \A m \in DOMAIN P.a : m < j =>
  \E i \in DOMAIN P.a[m] : LET b == IF RLt(P.g[m][i], "0") THEN P.ub[i] ELSE P.lb[i] IN
    RLt("0.0501", RMul(RAbs(P.g[m][i]), IF RFin(b) THEN RAbs(RSub(P.a[m][i], b)) ELSE "1"))
Init == t \in DOMAIN Pairs /\ k = 0
\* both runs have a k-th point unless the specification's horizon is reached
Next == /\ k <= P.horizon
        /\ k' = k + 1 /\ t' = t
        /\ LET ok == IF k = 0 THEN P.err = ""
                     ELSE IF ~Generic(k) \/ ~Apart(k) \/ ~ThetaMax(k) THEN TRUE
                     ELSE IF k > Last THEN k > Len(P.a) /\ k > Len(P.b)
                     ELSE Mirrored(P.a[k], P.b[k])
           IN ok \/ PrintT("@@" \o ToJson([t |-> t, k |-> k]))
Spec == Init /\ [][Next]_<<t, k>>
Complete == LET RECURSIVE sum(_) sum(a) == IF a = 0 THEN 0 ELSE 2 + Pairs[a].horizon + sum(a - 1)
            IN TLCGet("stats").distinct = sum(Len(Pairs))
=============================================================================
