-------------------------------- MODULE R60 --------------------------------
(* Real numbers as decimal strings ("-1.5", "2E-8") with 60 significant digits *)
(* and the non-finite values "nan", "inf", "-inf" of IEEE 754.                 *)
(*                                                                             *)
(* The operators marked (override) have no TLA+ definition that TLC could      *)
(* evaluate: strings are opaque in TLA+.  R60.java implements them.  Vectors   *)
(* are sequences, matrices sequences of rows.  The vector and matrix operators *)
(* are overridden as well, for speed; their meaning is the definition given    *)
(* here, and R60Test.tla compares both.                                        *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

RAdd(a, b)  == CHOOSE r \in STRING : TRUE   \* (override) a + b
RSub(a, b)  == CHOOSE r \in STRING : TRUE   \* (override) a - b
RMul(a, b)  == CHOOSE r \in STRING : TRUE   \* (override) a * b
RDiv(a, b)  == CHOOSE r \in STRING : TRUE   \* (override) a / b
RNeg(a)     == CHOOSE r \in STRING : TRUE   \* (override) - a
RAbs(a)     == CHOOSE r \in STRING : TRUE   \* (override) |a|
RSqrt(a)    == CHOOSE r \in STRING : TRUE   \* (override) square root
RLe(a, b)   == CHOOSE r \in BOOLEAN : TRUE  \* (override) a <= b  (FALSE for nan)
RLt(a, b)   == CHOOSE r \in BOOLEAN : TRUE  \* (override) a < b   (FALSE for nan)
REq(a, b)   == CHOOSE r \in BOOLEAN : TRUE  \* (override) a = b   (FALSE for nan)
RFin(a)     == CHOOSE r \in BOOLEAN : TRUE  \* (override) a is finite
RIsNan(a)   == CHOOSE r \in BOOLEAN : TRUE  \* (override) a is nan
RSgn(a)     == CHOOSE r \in {0-1,0,1} : TRUE\* (override) sign as integer
RInt(i)     == CHOOSE r \in STRING : TRUE   \* (override) integer to real
RUlp(a)     == CHOOSE r \in STRING : TRUE   \* (override) spacing of doubles at a
RDbl(a)     == CHOOSE r \in STRING : TRUE   \* (override) nearest double

RGe(a, b)   == RLe(b, a)
RGt(a, b)   == RLt(b, a)
RMin(a, b)  == IF RLe(a, b) THEN a ELSE b
RMax(a, b)  == IF RLe(a, b) THEN b ELSE a
RSq(a)      == RMul(a, a)
RHalf(a)    == RMul("0.5", a)
\* |a - b| <= tol
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

LOCAL Tail_(s) == SubSeq(s, 2, Len(s))
RECURSIVE VDot(_, _)
VDot(u, v)  == IF u = <<>> THEN "0"
               ELSE RAdd(RMul(u[1], v[1]), VDot(Tail_(u), Tail_(v)))
VNorm(u)    == RSqrt(VDot(u, u))
RECURSIVE VNormInf(_)
VNormInf(u) == IF u = <<>> THEN "0" ELSE RMax(RAbs(u[1]), VNormInf(Tail_(u)))
VAdd(u, v)  == [i \in DOMAIN u |-> RAdd(u[i], v[i])]
VSub(u, v)  == [i \in DOMAIN u |-> RSub(u[i], v[i])]
VMul(u, v)  == [i \in DOMAIN u |-> RMul(u[i], v[i])]
VScl(c, u)  == [i \in DOMAIN u |-> RMul(c, u[i])]
VAbs(u)     == [i \in DOMAIN u |-> RAbs(u[i])]
VDbl(u)     == [i \in DOMAIN u |-> RDbl(u[i])]
MDbl(m)     == [i \in DOMAIN m |-> VDbl(m[i])]
VFin(u)     == \A i \in DOMAIN u : RFin(u[i])
MV(m, u)    == [i \in DOMAIN m |-> VDot(m[i], u)]
MTV(m, u)   == [j \in DOMAIN m[1] |-> VDot([i \in DOMAIN m |-> m[i][j]], u)]
MAdd(m, k)  == [i \in DOMAIN m |-> VAdd(m[i], k[i])]
MSub(m, k)  == [i \in DOMAIN m |-> VSub(m[i], k[i])]
MScl(c, m)  == [i \in DOMAIN m |-> VScl(c, m[i])]
MOuter(u, v)== [i \in DOMAIN u |-> VScl(u[i], v)]
MMax(m)     == VNormInf([i \in DOMAIN m |-> VNormInf(m[i])])
MFin(m)     == \A i \in DOMAIN m : VFin(m[i])

(* Positive semidefiniteness of the symmetric part of m, by elimination.       *)
RECURSIVE MPsd(_)
MPsd(m) ==
  IF m = <<>> THEN TRUE ELSE
  LET n   == Len(m)
      a   == [i \in 1..n |-> [j \in 1..n |-> RHalf(RAdd(m[i][j], m[j][i]))]]
      q   == CHOOSE i \in 1..n : \A j \in 1..n : RLe(a[j][j], a[i][i])
      sk(i) == IF i < q THEN i ELSE i + 1
  IN IF RLt(a[q][q], "0") THEN FALSE
     ELSE IF REq(a[q][q], "0") THEN \A i, j \in 1..n : REq(a[i][j], "0")
     ELSE MPsd([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
            RSub(a[sk(i)][sk(j)],
                 RDiv(RMul(a[sk(i)][q], a[q][sk(j)]), a[q][q]))]])

VZero(n)    == [i \in 1..n |-> "0"]
MEye(n)     == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
MDiag(v)    == [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE "0"]]
QF(m, u)    == VDot(u, MV(m, u))            \* u' m u
MNear(m, k, tol) == RLe(MMax(MSub(m, k)), tol)
=============================================================================
