------------------------------- MODULE Matern -------------------------------
(***************************************************************************)
(* Half-integer Matern covariances on integer grids.                       *)
(*                                                                         *)
(* With c = 2 sqrt(p + 1/2), the kernel of order p at scaled distance h is *)
(* exp(-c h) * sum_k a[k] (2 c h)^k.  The coefficients are rational; they  *)
(* are characterised by smoothness: all odd Taylor coefficients of order   *)
(* below 2p vanish at zero.  Scaled squared distances are rational for     *)
(* ranges that are powers of two.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat
CONSTANTS MaxP, MaxPts, Grid
VARIABLES mc

RECURSIVE Coef(_, _)
Coef(p, k) == IF k = 0 THEN QOne
              ELSE QMul(Coef(p, k - 1), Q(p - k + 1, (2 * p - k + 1) * k))
Coefs(p) == [k \in 1..(p + 1) |-> Coef(p, k - 1)]

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE InvFact(_)
InvFact(k) == IF k = 0 THEN QOne ELSE QMul(InvFact(k - 1), <<1, k>>)
(* Taylor coefficient of order m of exp(-t) sum a_k (2t)^k *)
Taylor(p, m) ==
  QSum([k \in 1..(p + 1) |->
    IF k - 1 > m THEN QZero
    ELSE QMul(QMul(Coef(p, k - 1), QI(Pow2(k - 1))),
              QMul(QI(IF (m - k + 1) % 2 = 0 THEN 1 ELSE -1), InvFact(m - k + 1)))])
Smooth(p) == \A m \in 1..(2 * p - 1) : (m % 2 = 1 /\ m <= 5) => Taylor(p, m) = QZero
Rough(p) == (2 * p + 1 <= 5) => Taylor(p, 2 * p + 1) # QZero

(* ranges rho_j = 2^(r_j - 1) *)
Scaled2(u, v, r) ==
  QSum([j \in 1..Len(u) |-> LET d == u[j] - v[j]
                            IN IF r[j] = 0 THEN QI(4 * d * d) ELSE Q(d * d, Pow2(2 * (r[j] - 1)))])
Dist2(pts, r) == [i \in 1..Len(pts) |-> [j \in 1..Len(pts) |-> Scaled2(pts[i], pts[j], r)]]

PointSets(d) == UNION {[1..n -> [1..d -> Grid]] : n \in 1..MaxPts}
Init == mc = [go |-> FALSE, p |-> 0]
Next == /\ ~mc.go
        /\ \E p \in 0..MaxP : \E d \in 1..2 : \E pts \in PointSets(d) : \E r \in [1..d -> {0, 1, 2}] :
             /\ \A i \in 1..(Len(pts) - 1) : pts[i] # pts[i + 1]
             /\ mc' = [go |-> TRUE, p |-> p, pts |-> pts, r |-> r]
SimInit == mc = [go |-> FALSE, p |-> 0]
SimNext ==
  \E p \in {RandomElement(0..MaxP)} : \E d \in {RandomElement(1..3)} : \E n \in {RandomElement(1..MaxPts)} :
  \E pts \in {TLCEval([i \in 1..n |-> [j \in 1..d |-> RandomElement(Grid)]])} :
  \E r \in {TLCEval([j \in 1..d |-> RandomElement({0, 1, 2})])} :
    mc' = [go |-> TRUE, p |-> p, pts |-> pts, r |-> r]

(* ---- theorems ---- *)
Theorems ==
  /\ \A p \in 0..(IF MaxP > 6 THEN 6 ELSE MaxP) : Smooth(p) /\ Rough(p)
Metric ==
  mc.go => LET D == Dist2(mc.pts, mc.r) IN
    \A i, j \in 1..Len(mc.pts) : D[i][j] = D[j][i] /\ (D[i][j] = QZero <=> mc.pts[i] = mc.pts[j])
Emit == mc.go => PrintT(ToJson([p |-> mc.p, pts |-> mc.pts, r |-> mc.r, d2 |-> Dist2(mc.pts, mc.r),
                                a |-> Coefs(mc.p)]))
=============================================================================
