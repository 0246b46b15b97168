-------------------------------- MODULE Perf --------------------------------
(***************************************************************************)
(* Performance summaries of predictions, and descriptive statistics.       *)
(*                                                                         *)
(* Observations z with prediction errors e; reordering the pairs together  *)
(* is the only transition, and leaves every summary unchanged.  All        *)
(* summaries are exact rationals (standard deviations squared).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Sizes, Vals, Errs, Draws, Rand

VARIABLES z, e, z0, e0, moves, lvl
vars == <<z, e, z0, e0, moves, lvl>>

Sum(f) == ISum(f)
SumSq(f) == ISum([i \in 1..Len(f) |-> f[i] * f[i]])
Tss(f) == Q(Len(f) * SumSq(f) - Sum(f) * Sum(f), Len(f))
Least(f) == IMinS(f)
Most(f) == IMaxS(f)

Metrics(f, r) ==
  LET t == Tss(f) p == QI(SumSq(r)) n == Len(f)
  IN [n |-> n, var |-> QDiv(t, QI(n)), tss |-> t, res |-> p,
      ratio |-> IF t[1] = 0 THEN <<0, 1>> ELSE QDiv(p, t), ms |-> QDiv(p, QI(n)),
      explained |-> IF t[1] = 0 THEN <<0, 1>> ELSE QSub(QOne, QDiv(p, t)),
      min |-> Least(f), max |-> Most(f), delta |-> Most(f) - Least(f), mean |-> Q(Sum(f), n)]

Init == z = <<>> /\ e = <<>> /\ z0 = <<>> /\ e0 = <<>> /\ moves = 0 /\ lvl = 0
Size == lvl = 0 /\ lvl' = 1 /\ \E n \in Sizes, k \in 0..Draws : z' = <<n, k>> /\ UNCHANGED <<e, z0, e0, moves>>
Fill == /\ lvl = 1 /\ lvl' = 2 /\ moves' = 0
        /\ IF z[2] = 0
           THEN \E f \in [1..z[1] -> Vals], r \in [1..z[1] -> Errs] :
                  z' = f /\ e' = r /\ z0' = f /\ e0' = r
           ELSE \E f \in {TLCEval([i \in 1..(z[1] + z[2]) |-> RandomElement(-Rand..Rand)])} :
                \E r \in {TLCEval([i \in 1..(z[1] + z[2]) |-> RandomElement(-4..4)])} :
                  z' = f /\ e' = r /\ z0' = f /\ e0' = r
Swap == /\ lvl = 2 /\ moves < 1 /\ moves' = moves + 1 /\ UNCHANGED <<z0, e0, lvl>>
        /\ \E i \in 1..(Len(z) - 1) :
             /\ z' = [z EXCEPT ![i] = z[i + 1], ![i + 1] = z[i]]
             /\ e' = [e EXCEPT ![i] = e[i + 1], ![i + 1] = e[i]]
Next == Size \/ Fill \/ Swap

OrderFree == lvl = 2 => Metrics(z, e) = Metrics(z0, e0)
(* residuals about the mean explain nothing; no residuals explain all *)
Anchors == lvl = 2 /\ Tss(z)[1] # 0 =>
   /\ Metrics(z, [i \in 1..Len(z) |-> 0]).explained = QOne
   /\ QLe(Metrics(z, e).explained, QOne)
Emit == lvl = 2 /\ moves = 0 /\ Tss(z)[1] # 0 =>
   PrintT(ToJson([z |-> z, e |-> e, m |-> Metrics(z, e)]))
=============================================================================
