------------------------------ MODULE EmpBounds -----------------------------
(***************************************************************************)
(* Parameter bounds read off the data.  Rows of the bounds: mean           *)
(* parameters (open), log variance between two multiples of the empirical  *)
(* variance, and per input minus the log range, at most minus the log of a *)
(* multiple of the smallest positive spacing of that input (open when the  *)
(* input is constant).  Exponentials of the bounds are exact rationals.    *)
(*                                                                         *)
(* Transitions: exchanging rows; scaling the observations (c^2 on the      *)
(* variance bounds only); scaling or shifting one input (its own row       *)
(* only); appending a copy of an input column.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat
CONSTANTS Sizes, Dims, Draws, Spread
VARIABLES x, z, m, fac, done, lvl, k
vars == <<x, z, m, fac, done, lvl, k>>
Col(t, j) == [i \in 1..Len(t) |-> t[i][j]]
Gaps(c) == {c[i] - c[j] : i \in 1..Len(c), j \in 1..Len(c)} \cap {n \in -1000..1000 : n > 0}
MinGap(c) == IF Gaps(c) = {} THEN 0 ELSE CHOOSE g \in Gaps(c) : \A h \in Gaps(c) : g <= h
Var(c) == LET n == Len(c) s == ISum(c) q == ISum([i \in 1..n |-> c[i] * c[i]]) IN Q(n * q - s * s, n * n)
(* 0 stands for an open side *)
Bounds(a, b, mm, f) ==
  [i \in 1..mm |-> <<QZero, QZero>>] \o << <<QMul(f.lo, Var(b)), QMul(f.hi, Var(b))>> >>
  \o [j \in 1..Len(a[1]) |-> <<QZero, IF MinGap(Col(a, j)) = 0 THEN QZero ELSE QInv(QMul(f.len, QI(MinGap(Col(a, j)))))>>]
B == Bounds(x, z, m, fac)
Pick(S) == {RandomElement(S)}
Factors == {[lo |-> QI(2), hi |-> QI(10), len |-> QI(2)], [lo |-> Q(1, 2), hi |-> QI(3), len |-> QOne],
            [lo |-> QI(2), hi |-> QI(10), len |-> Q(1, 4)], [lo |-> Q(1, 10), hi |-> QI(10), len |-> QI(2)]}
Init == x = <<>> /\ z = <<>> /\ m = 0 /\ fac = [lo |-> QOne, hi |-> QOne, len |-> QOne] /\ done = "no" /\ lvl = 0 /\ k = 0
Shape == /\ lvl = 0 /\ lvl' = 1 /\ UNCHANGED <<x, z, done>>
         /\ \E n \in Sizes, d \in Dims, q \in 1..Draws, f \in Factors : k' = <<n, d, q>> /\ fac' = f
         /\ \E a \in Pick(0..3) : m' = a
Fill == /\ lvl = 1 /\ lvl' = 2 /\ UNCHANGED <<m, fac, done, k>>
        /\ \E a \in {TLCEval([i \in 1..k[1] |-> TLCEval([j \in 1..k[2] |-> RandomElement(-Spread..Spread)])])},
              b \in {TLCEval([i \in 1..k[1] |-> RandomElement(-9..9)])} : x' = a /\ z' = b
Once(t) == lvl = 2 /\ done = "no" /\ done' = t /\ UNCHANGED <<lvl, m, fac, k>>
Swap == Once("swap") /\ \E i \in 1..(Len(z) - 1) :
          /\ x' = [x EXCEPT ![i] = x[i + 1], ![i + 1] = x[i]]
          /\ z' = [z EXCEPT ![i] = z[i + 1], ![i + 1] = z[i]]
ScaleZ == Once("z") /\ UNCHANGED x /\ z' = [i \in 1..Len(z) |-> -3 * z[i]]
ScaleX == Once("x") /\ UNCHANGED z /\ x' = [i \in 1..Len(x) |-> [x[i] EXCEPT ![1] = 4 * x[i][1]]]
ShiftX == Once("s") /\ UNCHANGED z /\ x' = [i \in 1..Len(x) |-> [x[i] EXCEPT ![1] = x[i][1] + 17]]
Next == Shape \/ Fill \/ Swap \/ ScaleZ \/ ScaleX \/ ShiftX

Rows(S, f(_)) == \A r \in S : f(r)
Equivariant == [][lvl = 2 =>
   LET o == Bounds(x, z, m, fac) n == Bounds(x', z', m', fac')
       v == m + 1 u == m + 2
   IN CASE done' \in {"swap", "s"} -> n = o
        [] done' = "z" -> /\ n[v] = <<QMul(QI(9), o[v][1]), QMul(QI(9), o[v][2])>>
                          /\ \A i \in DOMAIN o \ {v} : n[i] = o[i]
        [] done' = "x" -> /\ n[u] = <<o[u][1], QDiv(o[u][2], QI(4))>>
                          /\ \A i \in DOMAIN o \ {u} : n[i] = o[i]]_vars
Ordered == lvl = 2 => LET r == B[m + 1] IN QLe(r[1], r[2])
Emit == lvl = 2 /\ Var(z)[1] # 0 => PrintT(ToJson([x |-> x, z |-> z, m |-> m, fac |-> fac, b |-> B]))
=============================================================================
