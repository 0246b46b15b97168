------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Exact linear algebra on rational matrices (sequences of rows).          *)
(* Elimination keeps its intermediate matrices evaluated (TLCEval), a      *)
(* singular matrix is reported, never divided by.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat

Rows(m) == Len(m)
Cols(m) == Len(m[1])
MatI(m) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> QI(m[i][j])]])
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
MT(m) == TLCEval([j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> m[i][j]]])
Dot(a, b) == QSum([k \in 1..Len(a) |-> QMul(a[k], b[k])])
MV(m, v) == TLCEval([i \in 1..Len(m) |-> Dot(m[i], v)])
MM(a, b) == LET bt == MT(b)
            IN TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> Dot(a[i], bt[j])]])
VecI(v) == [k \in 1..Len(v) |-> QI(v[k])]
VAdd(a, b) == [k \in 1..Len(a) |-> QAdd(a[k], b[k])]
VSub(a, b) == [k \in 1..Len(a) |-> QSub(a[k], b[k])]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN QOne ELSE QZero]]
Trace(m) == QSum([i \in 1..Len(m) |-> m[i][i]])
Symmetric(m) == \A i, j \in 1..Len(m) : m[i][j] = m[j][i]
Sub(m, ri, ci) == TLCEval([i \in 1..Len(ri) |-> [j \in 1..Len(ci) |-> m[ri[i]][ci[j]]]])
HCat(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] \o b[i]])
VCat(a, b) == a \o b

(* Gauss-Jordan on an n x w matrix, first n columns; det of that part *)
RECURSIVE Elim(_, _, _, _)
Elim(m, n, k, det) ==
  IF k > n THEN [ok |-> TRUE, m |-> m, det |-> det]
  ELSE LET piv == {i \in k..n : m[i][k][1] # 0} IN
    IF piv = {} THEN [ok |-> FALSE, m |-> m, det |-> QZero]
    ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
             pv == m[p][k]
             row == TLCEval([j \in 1..Len(m[p]) |-> QDiv(m[p][j], pv)])
             swp == [i \in 1..n |-> IF i = k THEN row ELSE IF i = p THEN m[k] ELSE m[i]]
             nxt == TLCEval([i \in 1..n |->
                      IF i = k \/ swp[i][k][1] = 0 THEN swp[i]
                      ELSE [j \in 1..Len(row) |-> QSub(swp[i][j], QMul(swp[i][k], row[j]))]])
         IN Elim(nxt, n, k + 1, TLCEval(QMul(det, IF p = k THEN pv ELSE QNeg(pv))))

Det(m) == Elim(m, Len(m), 1, QOne).det
Regular(m) == Elim(m, Len(m), 1, QOne).ok
Inv(m) == (* inverse and determinant of a regular matrix *)
  LET n == Len(m)
      r == Elim(HCat(m, Ident(n)), n, 1, QOne)
  IN [inv |-> TLCEval([i \in 1..n |-> SubSeq(r.m[i], n + 1, 2 * n)]), det |-> r.det, ok |-> r.ok]

(* leading principal minors decide positive definiteness *)
Lead(m, k) == [i \in 1..k |-> [j \in 1..k |-> m[i][j]]]
PosDef(m) == \A k \in 1..Len(m) : Det(Lead(m, k))[1] > 0
=============================================================================
