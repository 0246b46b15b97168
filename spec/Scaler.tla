------------------------------- MODULE Scaler -------------------------------
(***************************************************************************)
(* Location/scale transforms fitted on a column of integers, exactly.      *)
(* For every column the specification gives the location and the squared   *)
(* or plain scale of each scaler, 1 for a column without spread.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Rat
CONSTANTS MaxN, Values
VARIABLES col

Vals == {v - 3 : v \in Values}
Init == col \in UNION {[1..m -> Vals] : m \in 1..MaxN}
Next == UNCHANGED col

OneIfZero(q) == IF q[1] = 0 THEN QOne ELSE q
Fit(c) ==
  [norm_loc |-> SMean(c), norm_scale2 |-> OneIfZero(SVarP(c)),
   rob_loc |-> SQuant(c, <<1, 2>>),
   rob_scale |-> OneIfZero(QSub(SQuant(c, <<3, 4>>), SQuant(c, <<1, 4>>))),
   rob_wide |-> OneIfZero(QSub(SQuant(c, <<9, 10>>), SQuant(c, <<1, 10>>))),
   mm_loc |-> QI(IMinS(c)), mm_scale |-> OneIfZero(QI(IMaxS(c) - IMinS(c)))]

Apply(c, loc, scale) == [k \in 1..Len(c) |-> QDiv(QSub(QI(c[k]), loc), scale)]
Undo(t, loc, scale) == [k \in 1..Len(t) |-> QAdd(QMul(t[k], scale), loc)]

(* ---- properties of the specification ---- *)
RoundTrip ==
  LET f == Fit(col) IN
    /\ Undo(Apply(col, f.rob_loc, f.rob_scale), f.rob_loc, f.rob_scale) = [k \in 1..Len(col) |-> QI(col[k])]
    /\ Undo(Apply(col, f.mm_loc, f.mm_scale), f.mm_loc, f.mm_scale) = [k \in 1..Len(col) |-> QI(col[k])]
Standard ==
  LET f == Fit(col)
      n == Len(col)
      dev2 == QSum([k \in 1..n |-> QMul(QSub(QI(col[k]), f.norm_loc), QSub(QI(col[k]), f.norm_loc))])
  IN /\ QSum([k \in 1..n |-> QSub(QI(col[k]), f.norm_loc)]) = QZero
     /\ dev2 # QZero => QDiv(dev2, f.norm_scale2) = QI(n)
     /\ \A k \in 1..n : LET t == Apply(col, f.mm_loc, f.mm_scale)[k]
                        IN QLe(QZero, t) /\ QLe(t, QOne)
Emit == PrintT(ToJson([col |-> col, fit |-> Fit(col)]))
=============================================================================
