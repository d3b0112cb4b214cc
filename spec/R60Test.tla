------------------------------- MODULE R60Test -------------------------------
(* Tests of the arithmetic that R60.java supplies: laws that the scalar        *)
(* operators must satisfy, and agreement of the overridden vector and matrix   *)
(* operators with the definitions of R60.tla (repeated here under other names, *)
(* which are not overridden).  Run by bin/setup and every time it is rebuilt.   *)
EXTENDS R60, Integers, Sequences, TLC

Pool == {"0", "1", "-1", "0.1", "-2.5", "3", "1E-16", "1E300", "-7E-310", "123456.789", "0.3333333333333333"}
Special == {"nan", "inf", "-inf"}
All == Pool \cup Special
Rel(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax(RAbs(a), RAbs(b))))
U == "1E-57"

Scalars(a, b) ==
  /\ REq(RAdd(a, b), RAdd(b, a)) /\ REq(RMul(a, b), RMul(b, a))
  /\ REq(RSub(a, b), RAdd(a, RNeg(b))) /\ REq(RNeg(RNeg(a)), a)
  /\ REq(RSub(a, a), "0") /\ REq(RMul(a, "1"), a) /\ REq(RAdd(a, "0"), a) /\ REq(RMul(a, "0"), "0")
  /\ (~REq(b, "0")) => /\ Rel(RMul(RDiv(a, b), b), a, U)
                       /\ Rel(RDiv(RMul(a, b), b), a, U)
  /\ RLe(a, b) = (RLt(a, b) \/ REq(a, b)) /\ (RLe(a, b) \/ RLt(b, a)) /\ ~(RLe(a, b) /\ RLt(b, a))
  /\ RLt(a, b) = (RSgn(RSub(b, a)) = 1) /\ RSgn(a) \in {-1, 0, 1}
  /\ REq(RAbs(a), IF RSgn(a) = -1 THEN RNeg(a) ELSE a)
  /\ (RSgn(a) >= 0) => /\ Rel(RSq(RSqrt(a)), a, U) /\ Rel(RSqrt(RSq(a)), a, U)
  /\ RFin(a) /\ ~RIsNan(a)
  /\ RLe(RAbs(RSub(a, RDbl(a))), RHalf(RMax(RUlp(a), "4.9406564584124655E-324")))
  /\ REq(RDbl(RDbl(a)), RDbl(a))
Exact ==
  /\ REq(RAdd("0.1", "0.2"), "0.3") /\ REq(RMul("0.1", "0.1"), "0.01") /\ REq("1E2", "100") /\ REq("1.50", "1.5")
  /\ REq(RSub("1E30", "1"), "999999999999999999999999999999")
  /\ REq(RDiv("1", "8"), "0.125") /\ REq(RSqrt("2.25"), "1.5") /\ REq(RInt(-12), "-12")
  /\ REq(RUlp("1"), "2.220446049250313080847263336181640625E-16")
  /\ REq(RUlp("0.75"), "1.1102230246251565404236316680908203125E-16")
  /\ REq(RDbl("0.1"), "0.1000000000000000055511151231257827021181583404541015625")
  /\ REq(RDbl("0.5"), "0.5") /\ REq(RDbl("-3"), "-3")
Nonfinite(a) ==       \* a from Special
  /\ ~RFin(a) /\ (RIsNan(a) <=> a = "nan")
  /\ \A b \in Special : RLe(a, b) = ((a = b /\ a # "nan") \/ (a = "-inf" /\ b = "inf"))
  /\ \A b \in Pool : /\ RLt(a, b) = (a = "-inf") /\ RLt(b, a) = (a = "inf") /\ ~REq(a, b)
                     /\ ~RFin(RAdd(a, b)) /\ ~RFin(RSub(b, a)) /\ ~RFin(RMul(a, b))
  /\ RIsNan(RSub(a, a)) /\ RIsNan(RMul(a, "0"))
  /\ REq(RAbs("-inf"), "inf") /\ REq(RNeg("inf"), "-inf") /\ REq(RDiv("1", "inf"), "0")

(* definitions of R60.tla *)
Tl(s) == SubSeq(s, 2, Len(s))
RECURSIVE Dot(_, _)
Dot(u, v) == IF u = <<>> THEN "0" ELSE RAdd(RMul(u[1], v[1]), Dot(Tl(u), Tl(v)))
RECURSIVE NInf(_)
NInf(u) == IF u = <<>> THEN "0" ELSE RMax(RAbs(u[1]), NInf(Tl(u)))
RECURSIVE Psd(_)
Psd(m) ==
  IF m = <<>> THEN TRUE ELSE
  LET n   == Len(m)
      a   == [i \in 1..n |-> [j \in 1..n |-> RHalf(RAdd(m[i][j], m[j][i]))]]
      q   == CHOOSE i \in 1..n : \A j \in 1..n : RLe(a[j][j], a[i][i])
      sk(i) == IF i < q THEN i ELSE i + 1
  IN IF RLt(a[q][q], "0") THEN FALSE
     ELSE IF REq(a[q][q], "0") THEN \A i, j \in 1..n : REq(a[i][j], "0")
     ELSE Psd([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
            RSub(a[sk(i)][sk(j)], RDiv(RMul(a[sk(i)][q], a[q][sk(j)]), a[q][q]))]])

(* vectors and matrices: residues of a counter, spread over the pool           *)
Num == <<"0", "1", "-1", "0.1", "-2.5", "3", "1E-16", "7", "-0.3333333333333333", "2">>
E(k, j) == Num[((k * 7919 + j * 104729 + (((k \div 11) * j) % 13)) % 10) + 1]
Vec(k, n) == [j \in 1..n |-> E(k, j)]
Mat(k, n, p) == [i \in 1..n |-> [j \in 1..p |-> E(k + 17 * i, j + 3 * i)]]
VE(u, v) == DOMAIN u = DOMAIN v /\ \A i \in DOMAIN u : REq(u[i], v[i])
ME(m, k) == DOMAIN m = DOMAIN k /\ \A i \in DOMAIN m : VE(m[i], k[i])
Sym(m) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> RHalf(RAdd(m[i][j], m[j][i]))]]
Vectors(k, n) ==
  LET u == Vec(k, n)  v == Vec(k + 5, n)  m == Mat(k, n, n)  w == Mat(k + 1, n, n)  c == E(k, 9)
      gram == [i \in 1..n |-> [j \in 1..n |-> Dot(m[i], m[j])]] IN
  /\ Rel(RAdd(VDot(u, v), "1000"), RAdd(Dot(u, v), "1000"), "1E-55")
  /\ REq(VNorm(u), RSqrt(VDot(u, u))) /\ REq(VNormInf(u), NInf(u))
  /\ VE(VAdd(u, v), [i \in 1..n |-> RAdd(u[i], v[i])]) /\ VE(VSub(u, v), [i \in 1..n |-> RSub(u[i], v[i])])
  /\ VE(VMul(u, v), [i \in 1..n |-> RMul(u[i], v[i])]) /\ VE(VScl(c, u), [i \in 1..n |-> RMul(c, u[i])])
  /\ VE(VAbs(u), [i \in 1..n |-> RAbs(u[i])]) /\ VE(VDbl(u), [i \in 1..n |-> RDbl(u[i])])
  /\ VE(MV(m, u), [i \in 1..n |-> VDot(m[i], u)])
  /\ VE(MTV(m, u), [j \in 1..n |-> VDot([i \in 1..n |-> m[i][j]], u)])
  /\ ME(MAdd(m, w), [i \in 1..n |-> VAdd(m[i], w[i])]) /\ ME(MSub(m, w), [i \in 1..n |-> VSub(m[i], w[i])])
  /\ ME(MScl(c, m), [i \in 1..n |-> VScl(c, m[i])]) /\ ME(MOuter(u, v), [i \in 1..n |-> VScl(u[i], v)])
  /\ ME(MDbl(m), [i \in 1..n |-> VDbl(m[i])])
  /\ REq(MMax(m), NInf([i \in 1..n |-> NInf(m[i])]))
  /\ VFin(u) /\ MFin(m) /\ ~VFin([u EXCEPT ![n] = "nan"]) /\ ~MFin([m EXCEPT ![1][n] = "inf"])
  /\ MPsd(m) = Psd(m) /\ MPsd(MAdd(gram, MEye(n))) /\ MPsd(gram) = Psd(gram)
  /\ ~MPsd(MSub(MScl("-1", gram), MEye(n)))
  /\ REq(QF(m, u), VDot(u, MV(m, u)))

VARIABLES a, b, ok
Init == \/ a \in Pool /\ b \in Pool /\ ok = Scalars(a, b)
        \/ a \in Special /\ b = "special" /\ ok = Nonfinite(a)
        \/ a = "exact" /\ b = "exact" /\ ok = Exact
        \/ a \in 1..150 /\ b \in 1..4 /\ ok = Vectors(a, b)
Next == UNCHANGED <<a, b, ok>>
Spec == Init /\ [][Next]_<<a, b, ok>>
Good == ok
=============================================================================
