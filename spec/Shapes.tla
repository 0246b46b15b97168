------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Which data a model answers.  Points x, observations z and targets t are *)
(* arrays known here by their shapes.  Starting from data that fit, rows,  *)
(* columns and axes are added, dropped or turned; a request is answered    *)
(* exactly when the shapes fit together, with one entry per target (or per *)
(* observation left out), and refused otherwise.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rows, Cols, Targets, Depth
VARIABLES x, z, t, moves
vars == <<x, z, t, moves>>

Vector(s) == Len(s) = 1
Table(s) == Len(s) = 2
Column(s) == Table(s) /\ s[2] = 1
XOk == Table(x)
ZOk == Vector(z) \/ Column(z)
Left == XOk /\ ZOk /\ x[1] = z[1]
Fits(op) == IF op = "loo" THEN Left ELSE IF Left /\ Table(t) THEN x[2] = t[2] ELSE FALSE
Answer(op) == IF ~Fits(op) THEN <<>> ELSE IF op = "loo" THEN <<z[1]>> ELSE <<t[1]>>

Init == /\ moves = 0
        /\ \E n \in Rows, d \in Cols, m \in Targets : x = <<n, d>> /\ z = <<n>> /\ t = <<m, d>>
Deeper(s) == IF Len(s) < 3 THEN {Append(s, 1)} ELSE {}
Flatter(s) == IF Len(s) > 1 THEN (IF s[Len(s)] = 1 THEN {SubSeq(s, 1, Len(s) - 1)} ELSE {}) ELSE {}
Turned(s) == IF Table(s) THEN {<<s[2], s[1]>>} ELSE {}
Longer(s) == {[s EXCEPT ![1] = @ + 1]}
Shorter(s) == IF s[1] > 2 THEN {[s EXCEPT ![1] = @ - 1]} ELSE {}
Wider(s) == IF Table(s) THEN {[s EXCEPT ![2] = @ + 1]} ELSE {}
Changed(s) == Deeper(s) \cup Flatter(s) \cup Turned(s) \cup Longer(s) \cup Shorter(s) \cup Wider(s)
Next == /\ moves < Depth /\ moves' = moves + 1
        /\ \/ x' \in Changed(x) /\ UNCHANGED <<z, t>>
           \/ z' \in Changed(z) /\ UNCHANGED <<x, t>>
           \/ t' \in Changed(t) /\ UNCHANGED <<x, z>>

(* a vector and its column are the same observations *)
WithZ(s, op) == LET ok == (Vector(s) \/ Column(s)) /\ x[1] = s[1] IN
  IF ~XOk \/ ~ok THEN FALSE ELSE IF op = "loo" THEN TRUE ELSE Table(t) /\ x[2] = t[2]
ColumnFree == Vector(z) => \A op \in {"predict", "loo"} : WithZ(z, op) = WithZ(Append(z, 1), op)
(* leaving out one observation needs no more than predicting *)
Nested == Fits("predict") => Fits("loo")
(* a fitting request has as many answers as asked for *)
OneEach == /\ Fits("predict") => Answer("predict") = <<t[1]>>
           /\ Fits("loo") => Answer("loo") = <<x[1]>>
(* a single change of the number of rows of the points, or of the observations, never goes unnoticed *)
Noticed == (moves = 1 /\ Table(x) /\ Vector(z)) => (x[1] # z[1] => ~Fits("loo"))
Emit == PrintT(ToJson([x |-> x, z |-> z, t |-> t]))
=============================================================================
