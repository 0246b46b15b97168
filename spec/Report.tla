------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The diagnosis report of a fitted model.                                 *)
(*                                                                         *)
(* A model has m mean parameters and covariance parameters                 *)
(*   <<log variance, (log noise variance), log 1/range_1, .., range_d>>,   *)
(* here powers of two (variances: powers of four).  The selection went     *)
(* through optimiser rows, mean first; a row bounds its parameter or is    *)
(* open.  Data are integers.  The report gives every parameter in natural  *)
(* units, next to it the optimiser bounds of that very parameter, and for  *)
(* every output and input column range, mean and standard deviation and    *)
(* the range in units of the standard deviation / the range parameter.     *)
(* Transitions: rescaling a column together with its scale parameter, and  *)
(* appending mean parameters with their rows; both leave the relative      *)
(* ranges and the reported bounds alone.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat
CONSTANTS Draws, Dims, Rows
VARIABLES w, moved, lvl
vars == <<w, moved, lvl>>
Pow2(k) == IF k >= 0 THEN QI(2^k) ELSE Q(1, 2^(-k))
Lead(v) == IF v.noisy THEN 2 ELSE 1
NCov(v) == Lead(v) + v.d
Name(v, j) == IF j = 1 THEN "sigma2" ELSE IF v.noisy /\ j = 2 THEN "sigma2_noise"
              ELSE "rho_" \o ToString(j - Lead(v) - 1)
(* exponents: variances 4^e, ranges 2^e *)
Natural(v, j) == IF j <= Lead(v) THEN Pow2(2 * v.e[j]) ELSE Pow2(v.e[j])
Total(v) == v.m + NCov(v)
(* optimiser row of covariance parameter j; bounds shorter than the parameters say nothing *)
(* open: 0 neither side, 1 both, 2 below, 3 above *)
Bounded(v, j) == v.rows >= Total(v) /\ v.open[v.m + j] # 1
RowOf(v, j) == v.m + j
Stat(c) == LET n == Len(c) s == ISum(c) q == ISum([i \in 1..n |-> c[i] * c[i]])
           IN [min |-> QI(IMinS(c)), max |-> QI(IMaxS(c)), delta |-> QI(IMaxS(c) - IMinS(c)),
               mean |-> Q(s, n), var |-> Q(n * q - s * s, n * n)]
Col(t, j) == [i \in 1..Len(t) |-> t[i][j]]
RelZ(v, j) == QDiv(Stat(Col(v.z, j)).delta, Pow2(v.e[1]))
RelX(v, j) == QDiv(Stat(Col(v.x, j)).delta, Natural(v, Lead(v) + j))
Report(v) == [params |-> [j \in 1..NCov(v) |-> [name |-> Name(v, j), value |-> Natural(v, j),
                                               row |-> IF Bounded(v, j) THEN RowOf(v, j) ELSE 0]],
              z |-> [j \in 1..v.p |-> [stat |-> Stat(Col(v.z, j)), rel |-> RelZ(v, j)]],
              x |-> [j \in 1..v.d |-> [stat |-> Stat(Col(v.x, j)), rel |-> RelX(v, j)]]]

Pick(S) == {RandomElement(S)}
Tab(n, k, r) == {TLCEval([i \in 1..n |-> TLCEval([j \in 1..k |-> RandomElement(-r..r)])])}
Init == w = [d |-> 0] /\ moved = "no" /\ lvl = 0
Shape == /\ lvl = 0 /\ lvl' = 1 /\ UNCHANGED moved
         /\ \E d \in Dims, noisy \in BOOLEAN, m \in 0..2, p \in 1..2, k \in 1..Draws :
              w' = [d |-> d, noisy |-> noisy, m |-> m, p |-> p, k |-> k]
Fill == /\ lvl = 1 /\ lvl' = 2 /\ UNCHANGED moved
        /\ \E n \in Pick(1..Rows), extra \in Pick({0, 0, 0, 2, -1}) :
           \E x \in Tab(n, w.d, 9), z \in Tab(n, w.p, 9),
              e \in {TLCEval([j \in 1..(w.d + 2) |-> RandomElement(-3..3)])},
              open \in {TLCEval([j \in 1..(w.m + w.d + 6) |-> RandomElement(0..3)])} :
              LET v == [d |-> w.d, noisy |-> w.noisy, m |-> w.m, p |-> w.p, k |-> w.k, e |-> e, x |-> x, z |-> z,
                        open |-> open, rows |-> 0]
              IN w' = [v EXCEPT !.rows = Total(v) + extra]
Scaled(t, j) == [i \in 1..Len(t) |-> [t[i] EXCEPT ![j] = 2 * t[i][j]]]
RescaleX == /\ lvl = 2 /\ moved = "no" /\ UNCHANGED lvl /\ moved' = "x"
            /\ \E j \in 1..w.d : w' = [w EXCEPT !.x = Scaled(w.x, j), !.e[Lead(w) + j] = w.e[Lead(w) + j] + 1]
RescaleZ == /\ lvl = 2 /\ moved = "no" /\ UNCHANGED lvl /\ moved' = "z"
            /\ w' = [w EXCEPT !.z = [i \in 1..Len(w.z) |-> [j \in 1..w.p |-> 2 * w.z[i][j]]], !.e[1] = w.e[1] + 1]
AddMean == /\ lvl = 2 /\ moved = "no" /\ UNCHANGED lvl /\ moved' = "m"
           /\ w' = [w EXCEPT !.m = w.m + 1, !.rows = w.rows + 1, !.open = <<0>> \o w.open]
Next == Shape \/ Fill \/ RescaleX \/ RescaleZ \/ AddMean

Rel(v) == [z |-> [j \in 1..v.p |-> RelZ(v, j)], x |-> [j \in 1..v.d |-> RelX(v, j)]]
UnitFree == [][lvl = 2 => Rel(w') = Rel(w)]_vars
OwnBounds == [][lvl = 2 => \A j \in 1..NCov(w) : Bounded(w', j) = Bounded(w, j)]_vars
(* the range bounds the spread: var <= delta^2 / 4 *)
Spread == lvl = 2 => \A j \in 1..w.d :
            LET s == Stat(Col(w.x, j)) IN /\ QLe(QMul(QI(4), s.var), QMul(s.delta, s.delta))
                                          /\ QLe(s.min, s.mean) /\ QLe(s.mean, s.max)
Emit == lvl = 2 => PrintT(ToJson([w |-> w, r |-> Report(w)]))
=============================================================================
