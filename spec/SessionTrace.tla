----------------------------- MODULE SessionTrace ---------------------------
(* Judges recorded sessions.  Memo: the outcome of each run input, obtained    *)
(* from a new optimizer in a new process.  Every run of every session must     *)
(* have that outcome, whatever happened before, around or during it.           *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Memo == JsonDeserialize(IOEnv.MEMO)           \* key -> outcome
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k, own, kept
vars == <<i, k, own, kept>>
C == Cases[i]
Op == C.ops[k]
Has(r, f) == f \in DOMAIN r

\* an operation lists the runs that took place in it, in order of their ends
RunClauses(r) ==
  LET m == Memo[r.key] IN <<
    <<"C08.points", r.out.xs = m.xs>>,
    <<"C08.values", r.out.fs = m.fs>>,
    <<"C08.states", r.out.states = m.states>>,
    <<"C08.end", r.out.kind = m.kind /\ r.out.exc = m.exc>>,
    <<"C05.session", r.out.flag = m.flag /\ r.out.conv = m.conv>>,
    <<"C08.flag", r.out.flag = m.flag /\ r.out.conv = m.conv /\ r.out.iter = m.iter>>,
    <<"C08.result", r.out.ret = m.ret>>,
    <<"C02.session", r.out.best = m.best>>,
    <<"C08.best", r.out.best = m.best>>,
    \* what the kind of input stands for
    <<"C01.outside", r.what = "outside" =>
        r.out.kind = "raise" /\ r.out.flag = "EXCEEDED_BOUNDARY" /\ r.out.xs = <<>> >>,
    <<"C06.start", r.what = "nanstart" =>
        r.out.kind = "raise" /\ r.out.flag = "NOT_FINITE" /\ Len(r.out.xs) = 1>>,
    <<"C06.late", r.what = "nangrad" =>
        r.out.kind = "raise" /\ r.out.flag = "NOT_FINITE" /\ Len(r.out.xs) = 3>>,
    <<"C08.raise", r.what = "raise" => r.out.kind = "raise" /\ r.out.exc = "UserError">>,
    <<"C08.raise", r.what = "raise0" => r.out.kind = "raise" /\ r.out.exc = "UserError"
                                        /\ Len(r.out.xs) = 1>>,
    <<"C08.raise", (r.what = "interrupt" /\ Len(r.out.xs) > 3) =>
        r.out.kind = "raise" /\ r.out.exc = "KeyboardInterrupt" /\ Len(r.out.xs) = 4>>,
    <<"C17.shape", r.what = "shape" =>
        r.out.kind = "raise" /\ r.out.exc = "ValueError" /\ Len(r.out.xs) = 1>> >>
Flat(ss) == LET RECURSIVE go(_) go(n) == IF n = 0 THEN <<>> ELSE go(n - 1) \o ss[n] IN go(Len(ss))
Clauses ==
  LET o == Op IN
  (IF Has(o, "runs") THEN Flat([j \in DOMAIN o.runs |-> RunClauses(o.runs[j])]) ELSE <<>>)
  \o << <<"C08.inputs", o.own = own>>,
        <<"C08.kept", Len(o.kept) >= Len(kept) /\ SubSeq(o.kept, 1, Len(kept)) = kept>> >>
Init == i \in DOMAIN Cases /\ k = 1 /\ own = Cases[i].own /\ kept = <<>>
Next == /\ k <= Len(C.ops)
        /\ k' = k + 1 /\ i' = i
        \* new objects may have been added by the caller
        /\ own' = Op.nextown /\ kept' = Op.nextkept
        /\ LET cl == Clauses
               f == SelectSeq(cl, LAMBDA z : ~z[2])
           IN IF f = <<>> THEN TRUE
              ELSE PrintT("@@" \o ToJson([t |-> i, k |-> k, f |-> [j \in DOMAIN f |-> f[j][1]]]))
Spec == Init /\ [][Next]_vars
Steps == LET RECURSIVE sum(_) sum(a) == IF a = 0 THEN 0 ELSE 1 + Len(Cases[a].ops) + sum(a - 1)
         IN sum(Len(Cases))
Complete == TLCGet("stats").distinct = Steps
=============================================================================
