------------------------------- MODULE Fisher -------------------------------
(***************************************************************************)
(* Fisher information of covariance parameters, exactly, for covariances   *)
(* K(a, b) = a^2 G1 + b G2: half the trace of products of relative         *)
(* derivatives, in the plain form and in the trend-filtered form where the *)
(* inverse is the leading block of the inverse kriging system.             *)
(***************************************************************************)
EXTENDS Kriging
CONSTANTS N, Diag, Off
VARIABLES fc

Offs == {v - 2 : v \in Off}
Cells == {c \in (1..N) \X (1..N) : c[2] < c[1]}
G1(d, o) ==
  LET A == TLCEval([i \in 1..N |-> [j \in 1..N |->
             IF i = j THEN d[i] ELSE IF j < i THEN o[<<i, j>>] ELSE 0]])
  IN TLCEval([i \in 1..N |-> [j \in 1..N |-> ISum([k \in 1..N |-> A[i][k] * A[j][k]])]])
G2s == << [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE 0]],
          [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 2 ELSE IF i - j \in {-1, 1} THEN 1 ELSE 0]],
          [i \in 1..N |-> [j \in 1..N |-> 1]] >>
Thetas == { <<1, 1>>, <<2, 1>>, <<1, 3>> }
Coord == <<0, 1, 3, -1, 2>>
TrendOf(name) == [i \in 1..N |-> IF name = "const" THEN <<1>> ELSE <<1, Coord[i]>>]
All == [i \in 1..N |-> i]

Cov(g1, g2, t) == [i \in 1..N |-> [j \in 1..N |-> t[1] * t[1] * g1[i][j] + t[2] * g2[i][j]]]
Der(g1, g2, t) == << MatI([i \in 1..N |-> [j \in 1..N |-> 2 * t[1] * g1[i][j]]]), MatI(g2) >>
Info(w, ders, mode) ==
  LET iv == Inv(System(w, All, mode)).inv
      M == TLCEval([i \in 1..N |-> SubSeq(iv[i], 1, N)])
      md == << MM(M, ders[1]), MM(M, ders[2]) >>
  IN TLCEval([i \in 1..2 |-> [j \in 1..2 |-> QMul(<<1, 2>>, Trace(MM(md[i], md[j])))]])

Init == \E d \in [1..N -> Diag] : \E o \in [Cells -> Offs] :
          fc = [go |-> FALSE, g1 |-> G1(d, o)]
Next == /\ ~fc.go
        /\ \E k \in 1..Len(G2s) : \E t \in Thetas : \E tr \in {"const"} \cup (IF N > 2 THEN {"affine"} ELSE {}) :
             LET w == [g |-> Cov(fc.g1, G2s[k], t), p |-> TrendOf(tr), mu |-> [i \in 1..N |-> 0]]
                 ders == Der(fc.g1, G2s[k], t)
             IN fc' = TLCEval([go |-> TRUE, g1 |-> fc.g1, g2 |-> G2s[k], theta |-> t, p |-> w.p,
                               plain |-> Info(w, ders, "zero"), trend |-> Info(w, ders, "linear")])
(* comparisons multiply across: only where that stays within 32 bits *)
Small(q, b) == RAbs(q[1]) < b /\ q[2] < b
Theorems == fc.go => \A m \in {fc.plain, fc.trend} :
    /\ Symmetric(m) /\ m[1][1][1] >= 0 /\ m[2][2][1] >= 0
    /\ (\A i, j \in 1..2 : Small(m[i][j], 150)) =>
         QLe(QZero, QSub(QMul(m[1][1], m[2][2]), QMul(m[1][2], m[2][1])))
(* filtering out a trend never adds information *)
Loses == fc.go => \A i \in 1..2 :
  (Small(fc.trend[i][i], 40000) /\ Small(fc.plain[i][i], 40000)) => QLe(fc.trend[i][i], fc.plain[i][i])
Emit == fc.go => PrintT(ToJson(fc))
=============================================================================
