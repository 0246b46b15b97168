------------------------------ MODULE Designs -------------------------------
(***************************************************************************)
(* Designs of experiments.  Grids are products of equally spaced levels    *)
(* (exact rationals), distances of point sets are those of integer points, *)
(* and a Latin hypercube of n points meets each of the n slices of every   *)
(* coordinate exactly once.  The last is decided on recorded designs.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Mode, Dims, Levels, Side, MaxPoints

VARIABLES c, lvl
vars == <<c, lvl>>

Lows == {-3, 0}
Widths == {1, 7}
Level(lo, w, n, i) == IF n = 1 THEN QI(lo) ELSE QAdd(QI(lo), Q(w * i, n - 1))
(* product of the level sets, as tuples *)
RECURSIVE Grid(_)
Grid(ls) == IF ls = <<>> THEN {<<>>}
            ELSE {<<ls[1][i]>> \o t : i \in 1..Len(ls[1]), t \in Grid(Tail(ls))}

Sq(x) == x * x
Dist2(p, q) == LET S[k \in 0..Len(p)] == IF k = 0 THEN 0 ELSE S[k - 1] + Sq(p[k] - q[k]) IN S[Len(p)]
MinS(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxS(S) == CHOOSE v \in S : \A w \in S : v >= w

Init == c = [dim |-> 0] /\ lvl = 0

ChooseDim == lvl = 0 /\ lvl' = 1 /\ \E d \in Dims : c' = [dim |-> d]
ChooseGrid ==
  /\ Mode = "grid" /\ lvl = 1 /\ lvl' = 2
  /\ \E n \in [1..c.dim -> 1..Levels], lo \in [1..c.dim -> Lows], w \in [1..c.dim -> Widths] :
       LET ls == [d \in 1..c.dim |-> [i \in 1..n[d] |-> Level(lo[d], w[d], n[d], i - 1)]]
       IN c' = [dim |-> c.dim, n |-> n, lo |-> lo, hi |-> [d \in 1..c.dim |-> lo[d] + w[d]],
                points |-> Grid(ls)]
Pts(d) == [1..d -> 0..Side]
ChooseFirst ==
  /\ Mode = "dist" /\ lvl = 1 /\ lvl' = 2
  /\ \E k \in 1..MaxPoints, p \in Pts(c.dim) : c' = [dim |-> c.dim, k |-> k, p |-> <<p>>]
ChooseRest ==
  /\ Mode = "dist" /\ lvl = 2 /\ lvl' = 3
  /\ \E r \in [1..(c.k - 1) -> Pts(c.dim)] :
       LET p == c.p \o r
           pairs == {Dist2(p[i], p[j]) : <<i, j>> \in {<<i, j>> \in (1..c.k) \X (1..c.k) : i < j}}
           all == Pts(c.dim)
       IN c' = [dim |-> c.dim, p |-> p,
                min2 |-> IF pairs = {} THEN -1 ELSE MinS(pairs),
                max2 |-> IF pairs = {} THEN 0 ELSE MaxS(pairs),
                fill2 |-> MaxS({MinS({Dist2(q, p[i]) : i \in 1..c.k}) : q \in all})]
Next == ChooseDim \/ ChooseGrid \/ ChooseFirst \/ ChooseRest

(* every face of the box is met by a grid of at least two levels *)
Faces == Mode = "grid" /\ lvl = 2 =>
  \A d \in 1..c.dim : c.n[d] > 1 =>
     /\ \E p \in c.points : p[d] = QI(c.lo[d])
     /\ \E p \in c.points : p[d] = QI(c.hi[d])
     /\ \A p \in c.points : QLe(QI(c.lo[d]), p[d]) /\ QLe(p[d], QI(c.hi[d]))
Ordered == Mode = "dist" /\ lvl = 3 => c.min2 <= c.max2
Emit == (Mode = "grid" /\ lvl = 2) \/ (Mode = "dist" /\ lvl = 3) => PrintT(ToJson(c))

(* ---- recorded random designs ---- *)
Failures(r) ==
  (IF r.count # r.n THEN {"the design has the requested number of points"} ELSE {})
  \cup (IF r.width # r.dim THEN {"the design has the requested dimension"} ELSE {})
  \cup (IF ~r.inside THEN {"every point lies in the box"} ELSE {})
  \cup (IF r.latin /\ \E d \in 1..r.dim : {r.slices[d][i] : i \in 1..r.count} # 0..(r.n - 1)
        THEN {"every slice of every coordinate holds exactly one point"} ELSE {})
=============================================================================
