-------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What diagnostic plots show.  A figure is a sequence of panels, opened   *)
(* one after the other; every panel sweeps one coordinate of a reference   *)
(* point through an interval while all others stay at the reference.       *)
(*  kind "criterion": the reference is a parameter vector, the curve the   *)
(*     criterion sum_j (j+1) p_j^2 + p_1 p_2 (plus 7 per further criterion)*)
(*  kind "prediction": the reference is an observation; panels run over    *)
(*     the swept coordinates and the anchors, coordinate-major             *)
(*  kind "ecdf": a sample in twentieths; the share not above each of the   *)
(*     twentieths                                                          *)
(* Intervals are per coordinate, whatever panels are opened.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat
CONSTANTS Kinds, Draws, MaxDim, Depth
VARIABLES kind, ref, box, panels, lvl, k
vars == <<kind, ref, box, panels, lvl, k>>
Pts == 5
Grid(lo, hi) == [i \in 1..Pts |-> Q(lo * (Pts - 1) + (hi - lo) * (i - 1), Pts - 1)]
RECURSIVE QS(_, _)
QS(f, n) == IF n = 0 THEN QZero ELSE QAdd(f[n], QS(f, n - 1))
Crit(p) == QAdd(QS([j \in 1..Len(p) |-> QMul(QI(j + 1), QMul(p[j], p[j]))], Len(p)),
                IF Len(p) > 1 THEN QMul(p[1], p[2]) ELSE QZero)
Put(r, j, v) == [i \in 1..Len(r) |-> IF i = j THEN v ELSE QI(r[i])]
Curve(a, j) == LET g == Grid(box[j][1], box[j][2])
               IN [i \in 1..Pts |-> <<g[i], Crit(Put(ref[a], j, g[i]))>>]
Tab(n, d, r) == {TLCEval([i \in 1..n |-> TLCEval([j \in 1..d |-> RandomElement(-r..r)])])}
Init == kind = "" /\ ref = <<>> /\ box = <<>> /\ panels = <<>> /\ lvl = 0 /\ k = 0
Choose == /\ lvl = 0 /\ lvl' = 1 /\ UNCHANGED <<box, panels, ref>>
          /\ \E q \in Kinds, d \in 1..MaxDim, n \in 1..Draws : kind' = q /\ k' = <<d, n>>
Fill == /\ lvl = 1 /\ lvl' = 2 /\ UNCHANGED <<kind, panels, k>>
        /\ \E n \in {IF kind = "criterion" THEN 1 ELSE RandomElement(1..5)} :
           \E r \in Tab(n, k[1], 10), b \in Tab(k[1], 2, 6) :
              /\ ref' = IF kind = "ecdf" THEN [i \in 1..n |-> [j \in 1..k[1] |-> r[i][j] + 10]] ELSE r
              /\ box' = [j \in 1..k[1] |-> <<b[j][1] - 6, b[j][2] + 7>>]
Open == /\ lvl >= 2 /\ lvl < 2 + Depth /\ kind # "ecdf" /\ lvl' = lvl + 1 /\ UNCHANGED <<kind, ref, box, k>>
        /\ \E a \in 1..Len(ref), j \in 1..k[1] :
             /\ \A q \in 1..Len(panels) : panels[q] # [anchor |-> a, coord |-> j]
             /\ panels' = Append(panels, [anchor |-> a, coord |-> j])
Next == Choose \/ Fill \/ Open

(* Every panel meets every other panel of its anchor in the reference value *)
Through == \A q \in 1..Len(panels) :
  LET a == panels[q].anchor j == panels[q].coord
  IN Crit(Put(ref[a], j, QI(ref[a][j]))) = Crit([i \in 1..k[1] |-> QI(ref[a][i])])
Flat == [i \in 1..(Len(ref) * k[1]) |-> ref[((i - 1) \div k[1]) + 1][((i - 1) % k[1]) + 1]]
Share(t) == Q(Cardinality({i \in 1..Len(Flat) : Flat[i] <= t}), Len(Flat))
Monotone == kind = "ecdf" /\ lvl = 2 => \A t \in 0..19 : QLe(Share(t), Share(t + 1)) /\ Share(20) = QOne
Emit == /\ (kind # "ecdf" /\ Len(panels) > 0 =>
            PrintT(ToJson([kind |-> kind, ref |-> ref, box |-> box, panels |->
               [q \in 1..Len(panels) |-> [anchor |-> panels[q].anchor, coord |-> panels[q].coord,
                                          curve |-> Curve(panels[q].anchor, panels[q].coord)]]])))
        /\ (kind = "ecdf" /\ lvl = 2 => PrintT(ToJson([kind |-> kind, sample |-> Flat, share |-> [t \in 1..21 |-> Share(t - 1)]])))
=============================================================================
