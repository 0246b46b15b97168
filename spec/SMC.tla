-------------------------------- MODULE SMC ---------------------------------
(***************************************************************************)
(* A weighted set of particles.                                            *)
(*                                                                         *)
(* Particle i stands at its own position; target k gives it the density    *)
(* 2^lev[k][i], or zero (level Dead).  Reweight multiplies the weight by   *)
(* the ratio of the new to the stored density - for good, or on trial      *)
(* (only the effective sample size and the next resampling see it).        *)
(* Resample keeps the number of particles, draws only particles of         *)
(* positive trial weight, and makes the weights uniform.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Sizes, Levels, Depth, Sampled

Dead == 99
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
QPow2(k) == IF k >= 0 THEN QI(Pow2(k)) ELSE <<1, Pow2(-k)>>

VARIABLES n, lev, lp, w, trial, hist
vars == <<n, lev, lp, w, trial, hist>>

Init == /\ n \in Sizes /\ lev = <<>> /\ lp = <<>> /\ w = <<>> /\ trial = <<>> /\ hist = <<>>
Targets == 2
AllLev(m) == [1..Targets -> [1..m -> Levels \cup {Dead}]]
Setup ==
  /\ lev = <<>>
  /\ \E t \in IF Sampled THEN {TLCEval([k \in 1..Targets |-> [i \in 1..n |-> RandomElement(Levels \cup {Dead})]])} ELSE AllLev(n) :
       /\ \A k \in 1..Targets : \E i \in 1..n : t[k][i] # Dead
       /\ lev' = t
  /\ lp' = [i \in 1..n |-> 0] /\ w' = [i \in 1..n |-> Q(1, n)] /\ trial' = [i \in 1..n |-> Q(1, n)]
  /\ UNCHANGED <<n, hist>>

Ratio(k, i) == IF lev[k][i] = Dead \/ lp[i] = Dead THEN QZero ELSE QPow2(lev[k][i] - lp[i])
NewW(k) == [i \in 1..n |-> IF w[i] = QZero THEN QZero ELSE QMul(w[i], Ratio(k, i))]
Total(v) == QSum(v)
Ess(v) == IF Total(v) = QZero THEN QZero ELSE QDiv(QMul(Total(v), Total(v)), QSum([i \in 1..n |-> QMul(v[i], v[i])]))
Share(v, i) == QMul(QI(n), QDiv(v[i], Total(v)))     (* expected number of copies *)
Whole(q) == q[1] \div q[2]
Shares(v) == [i \in 1..n |-> IF Total(v) = QZero THEN QOne ELSE Share(v, i)]

Reweight(k, keep) ==
  LET v == NewW(k)
  IN /\ trial' = v
     /\ w' = IF keep THEN v ELSE w
     /\ lp' = IF keep THEN lev[k] ELSE lp
     /\ hist' = Append(hist, [op |-> "reweight", target |-> k, keep |-> keep, trial |-> v,
                              w |-> w', lp |-> lp', ess |-> Ess(v), shares |-> Shares(v)])
     /\ UNCHANGED <<n, lev>>
Step == lev # <<>> /\ Len(hist) < Depth /\ \E k \in 1..Targets, keep \in BOOLEAN : Reweight(k, keep)
Next == Setup \/ Step

(******************************* properties ********************************)
EssBounds == lev # <<>> /\ Total(trial) # QZero => QLe(QOne, Ess(trial)) /\ QLe(Ess(trial), QI(n))
(* whole expected copies never exceed the number of particles *)
WholeFits == lev # <<>> /\ Total(trial) # QZero =>
   /\ ISum([i \in 1..n |-> Whole(Shares(trial)[i])]) <= n
   /\ QSum(Shares(trial)) = QI(n)
(* kept weights are the density of the last kept target, up to a factor, among those alive all along *)
LastKept == {j \in 1..Len(hist) : hist[j].keep}
Proportional == LastKept # {} =>
   \A i, j \in 1..n : (w[i] # QZero /\ w[j] # QZero) => QDiv(w[i], w[j]) = QPow2(lp[i] - lp[j])
DeadStays == \A i \in 1..Len(w) : lp[i] = Dead => w[i] = QZero
Emit == lev # <<>> /\ Len(hist) = Depth => PrintT(ToJson([n |-> n, lev |-> lev, hist |-> hist]))
=============================================================================
