----------------------------- MODULE InitGuess ------------------------------
(***************************************************************************)
(* Initial guesses under changes of units and of storage.                  *)
(*                                                                         *)
(* State: what has been done to a base data set (the observations are now  *)
(* cz * z + az, coordinate j of the inputs sx[j] * x + tx[j]) and how the  *)
(* data are handed over.  The guess made from the transformed data must be *)
(* the guess made from the base data with variance times cz^2, range j     *)
(* times |sx[j]| and mean cz * m + az, and everything in the units chosen  *)
(* at the start (exponents of two for the observations and the inputs, so  *)
(* that the unit itself changes no rounding).  The field `var' says        *)
(* whether the variance is determined (models that do not remove an        *)
(* unknown constant fix it only while no constant has been added).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Depth, Rich

VARIABLES d, mean, store, unit, u, hist
vars == <<d, mean, store, unit, u, hist>>

Factors == {QI(2), QI(-3), Q(1, 4), QI(100)}
Shifts == {QI(5), Q(-7, 2), QI(300)}
Stores == {[kind |-> "arrays"]}
          \cup {[kind |-> "whole", shards |-> s, shuffle |-> b] : s \in 1..3, b \in BOOLEAN}
          \cup {[kind |-> "batches", shards |-> s, bs |-> b] : s \in 1..3, b \in 2..4}

Units == {[z |-> 0, x |-> <<0, 0, 0>>], [z |-> -30, x |-> <<0, 0, 0>>], [z |-> 25, x |-> <<0, 0, 0>>],
          [z |-> 0, x |-> <<-24, 3, -24>>], [z |-> 11, x |-> <<-2, 24, 24>>], [z |-> -12, x |-> <<20, -20, 0>>]}
Unit == [cz |-> QOne, az |-> QZero, sx |-> <<QOne, QOne, QOne>>, tx |-> <<QZero, QZero, QZero>>,
         shifted |-> FALSE, order |-> 0]
Init == /\ d \in 1..3 /\ mean \in {"unknown", "parameter", "zero"}
        /\ store \in Stores /\ unit \in Units /\ u = Unit /\ hist = <<>>

ScaleZ(f) == u' = [u EXCEPT !.cz = QMul(@, f), !.az = QMul(@, f)]
ShiftZ(t) == u' = [u EXCEPT !.az = QAdd(@, t), !.shifted = TRUE]
ScaleX(j, f) == u' = [u EXCEPT !.sx[j] = QMul(@, f), !.tx[j] = QMul(@, f)]
ShiftX(j, t) == u' = [u EXCEPT !.tx[j] = QAdd(@, t)]
Reorder == u' = [u EXCEPT !.order = @ + 1]
Sane(a) == RAbs(a[1]) <= 3000 * a[2] /\ 100 * RAbs(a[1]) >= a[2]
Tame == Sane(u'.cz) /\ (\A j \in 1..3 : Sane(u'.sx[j])) /\ RAbs(u'.az[1]) <= 3000 * u'.az[2]
        /\ \A j \in 1..3 : RAbs(u'.tx[j][1]) <= 1000 * u'.tx[j][2]

Do(A, rec) == A /\ Tame /\ hist' = Append(hist, rec) /\ UNCHANGED <<d, mean, store, unit>>
Next == /\ Len(hist) < Depth
        /\ \/ \E f \in Factors : Do(ScaleZ(f), [op |-> "scale_z", by |-> f])
           \/ \E t \in Shifts : Do(ShiftZ(t), [op |-> "shift_z", by |-> t])
           \/ \E j \in 1..d, f \in Factors : Do(ScaleX(j, f), [op |-> "scale_x", j |-> j, by |-> f])
           \/ \E j \in 1..d, t \in Shifts : Do(ShiftX(j, t), [op |-> "shift_x", j |-> j, by |-> t])
           \/ (store.kind # "batches" /\ Do(Reorder, [op |-> "reorder"]))

Expect == [var |-> (mean = "unknown" \/ ~u.shifted), vmul |-> QMul(u.cz, u.cz),
           rmul |-> [j \in 1..d |-> QAbs(u.sx[j])], mmul |-> u.cz, madd |-> u.az]

(* composing the recorded steps one by one gives the transformation of the state *)
RECURSIVE Apply(_, _, _)
Apply(k, z, x) ==
  IF k > Len(hist) THEN <<z, x>>
  ELSE LET h == hist[k]
       IN Apply(k + 1,
                IF h.op = "scale_z" THEN QMul(z, h.by) ELSE IF h.op = "shift_z" THEN QAdd(z, h.by) ELSE z,
                IF h.op = "scale_x" THEN [x EXCEPT ![h.j] = QMul(@, h.by)]
                ELSE IF h.op = "shift_x" THEN [x EXCEPT ![h.j] = QAdd(@, h.by)] ELSE x)
Composes == \A z0 \in {QI(3), Q(-1, 2)} :
  LET r == Apply(1, z0, [j \in 1..d |-> z0])
  IN /\ r[1] = QAdd(QMul(u.cz, z0), u.az)
     /\ \A j \in 1..d : r[2][j] = QAdd(QMul(u.sx[j], z0), u.tx[j])
Emit == Len(hist) = Depth =>
  PrintT(ToJson([d |-> d, mean |-> mean, store |-> store, unit |-> unit, hist |-> hist, expect |-> Expect]))
=============================================================================
