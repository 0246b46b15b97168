------------------------------- MODULE Post1D -------------------------------
(***************************************************************************)
(* One-dimensional distributions known up to a factor.                     *)
(*                                                                         *)
(* "poly": a density on [0,1] with non-negative Bernstein coefficients b   *)
(* (degree n): total mass, moments and distribution function at quarters   *)
(* are exact rationals.  "grid": weights 2^-k on a regular grid, summed by *)
(* the trapezoid rule; quantiles invert the piecewise linear distribution  *)
(* function.  Transitions: reflect the interval, and scale the density     *)
(* (add a constant to the log-density).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Degrees, Coefs, GridSizes, Expo, Moves

VARIABLES kind, b, b0, flips, shift, moves, lvl
vars == <<kind, b, b0, flips, shift, moves, lvl>>

RECURSIVE Choose(_, _), Pow(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
QSumS(f) == QSum(f)
Seqs(n, S) == [1..n -> S]
Rev(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]

(*************************** polynomial densities **************************)
Deg(c) == Len(c) - 1
Mass(c) == Q(ISum(c), Deg(c) + 1)
M1(c) == QDiv(QSumS([i \in 1..Len(c) |-> Q(c[i] * i, (Deg(c) + 1) * (Deg(c) + 2))]), Mass(c))
M2(c) == QDiv(QSumS([i \in 1..Len(c) |-> Q(c[i] * i * (i + 1), (Deg(c) + 1) * (Deg(c) + 2) * (Deg(c) + 3))]), Mass(c))
(* P(Bin(n+1, j/4) >= i) *)
Upper(n1, i, j) == Q(ISum([k \in 1..(n1 - i + 1) |-> Choose(n1, i + k - 1) * Pow(j, i + k - 1) * Pow(4 - j, n1 - i - k + 1)]), Pow(4, n1))
Cdf(c, j) == QDiv(QSumS([i \in 1..Len(c) |-> QMul(Q(c[i], Deg(c) + 1), Upper(Deg(c) + 1, i, j))]), Mass(c))
PVar(c) == QSub(M2(c), QMul(M1(c), M1(c)))
Poly(c) == [kind |-> "poly", b |-> c, mass |-> Mass(c), mean |-> M1(c), var |-> PVar(c),
            cdf |-> [j \in 1..5 |-> Cdf(c, j - 1)]]

(****************************** weighted grids *****************************)
(* abscissae 0..n-1, weight of exponent k is 2^(Big-k) *)
Big == 4
W(k) == Pow(2, Big - k)
Trap(f) == Q(2 * ISum(f) - f[1] - f[Len(f)], 2)
GW(c) == [i \in 1..Len(c) |-> W(c[i])]
GZ(c) == Trap(GW(c))
GM(c, p) == QDiv(Trap([i \in 1..Len(c) |-> Pow(i - 1, p) * W(c[i])]), GZ(c))
GVar(c) == QSub(GM(c, 2), QMul(GM(c, 1), GM(c, 1)))
GC(c, i) == IF i = 1 THEN QZero ELSE QDiv(Trap(SubSeq(GW(c), 1, i)), GZ(c))
GQ(c, q) == LET i == CHOOSE i \in 1..(Len(c) - 1) : QLe(GC(c, i), q) /\ QLe(q, GC(c, i + 1))
            IN QAdd(QI(i - 1), QDiv(QSub(q, GC(c, i)), QSub(GC(c, i + 1), GC(c, i))))
Levels == << <<1, 10>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<9, 10>> >>
Modes(c) == {i \in 1..Len(c) : \A k \in 1..Len(c) : c[i] <= c[k]}
Grid(c) == [kind |-> "grid", b |-> c, mean |-> GM(c, 1), var |-> GVar(c),
            quant |-> [l \in 1..5 |-> GQ(c, Levels[l])], modes |-> Modes(c)]

(******************************* transitions *******************************)
Init == kind = "" /\ b = <<>> /\ b0 = <<>> /\ flips = 0 /\ shift = 0 /\ moves = 0 /\ lvl = 0
Start == /\ lvl = 0 /\ lvl' = 1 /\ UNCHANGED <<b0, flips, shift, moves>>
         /\ \/ kind' = "poly" /\ \E n \in Degrees : b' = <<n + 1>>
            \/ kind' = "grid" /\ \E n \in GridSizes : b' = <<n>>
Fill == /\ lvl = 1 /\ lvl' = 2 /\ UNCHANGED <<kind, flips, shift, moves>>
        /\ \E c \in Seqs(b[1], IF kind = "poly" THEN Coefs ELSE Expo) :
             /\ kind = "poly" => ISum(c) > 0
             /\ b' = c /\ b0' = c
Reflect == lvl = 2 /\ moves < Moves /\ moves' = moves + 1 /\ b' = Rev(b) /\ flips' = 1 - flips /\ UNCHANGED <<kind, b0, shift, lvl>>
Scale == /\ lvl = 2 /\ moves < Moves /\ moves' = moves + 1 /\ shift' = shift + 1 /\ UNCHANGED <<kind, b0, flips, lvl>>
         /\ b' = [i \in 1..Len(b) |-> IF kind = "poly" THEN 3 * b[i] ELSE b[i] - 1]
Next == Start \/ Fill \/ Reflect \/ Scale

(******************************* properties ********************************)
On(k) == lvl = 2 /\ kind = k
End == IF kind = "poly" THEN QOne ELSE QI(Len(b) - 1)
Back(x) == IF flips = 1 THEN QSub(End, x) ELSE x
MeanOf(c) == IF kind = "poly" THEN M1(c) ELSE GM(c, 1)
VarOf(c) == IF kind = "poly" THEN PVar(c) ELSE GVar(c)
LevelFree == lvl = 2 => Back(MeanOf(b)) = MeanOf(b0) /\ VarOf(b) = VarOf(b0)
Monotone == On("poly") => /\ Cdf(b, 0) = QZero /\ Cdf(b, 4) = QOne
                          /\ \A j \in 0..3 : QLe(Cdf(b, j), Cdf(b, j + 1))
Mirror == On("poly") => \A j \in 0..4 :
            (IF flips = 1 THEN QSub(QOne, Cdf(b, 4 - j)) ELSE Cdf(b, j)) = Cdf(b0, j)
Ordered == On("grid") => \A l \in 1..4 : QLe(GQ(b, Levels[l]), GQ(b, Levels[l + 1]))
Positive == lvl = 2 => QLt(QZero, VarOf(b))
Emit == lvl = 2 /\ moves = 0 => PrintT(ToJson(IF kind = "poly" THEN Poly(b) ELSE Grid(b)))
=============================================================================
