------------------------------ MODULE NutsTree ------------------------------
(***************************************************************************)
(* The doubling tree of a no-U-turn transition on a given trajectory.      *)
(*                                                                         *)
(* Points of the trajectory are integers; 0 is the current state.  `bad`   *)
(* holds the points of excessive or undefined energy, `turn` the pairs     *)
(* <<i, j>>, i < j, between whose ends the trajectory makes a U-turn.      *)
(* A subtree of 2^d points next to an edge is complete when none of its    *)
(* points is bad and none of its balanced parts turns; otherwise building  *)
(* stops at the first part that fails.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Pair(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
RECURSIVE Sub(_, _, _, _, _)
(* from point s in direction v: points visited in order, completeness, divergence *)
Sub(s, v, d, bad, turn) ==
  IF d = 0 THEN [seen |-> <<s>>, ok |-> s \notin bad, div |-> s \in bad]
  ELSE LET a == Sub(s, v, d - 1, bad, turn)
       IN IF ~a.ok THEN a
          ELSE LET b == Sub(s + v * P2(d - 1), v, d - 1, bad, turn)
               IN [seen |-> a.seen \o b.seen, ok |-> b.ok /\ Pair(s, s + v * (P2(d) - 1)) \notin turn, div |-> b.div]
(* a transition: lo..hi the tree, from 0; depth doublings made *)
Start(z) == [lo |-> z, hi |-> z, depth |-> 0, on |-> TRUE, seen |-> <<>>, div |-> FALSE]
Double(t, v, bad, turn) ==
  LET s == Sub(IF v = 1 THEN t.hi + 1 ELSE t.lo - 1, v, t.depth, bad, turn)
      lo == IF s.ok /\ v = -1 THEN t.lo - P2(t.depth) ELSE t.lo
      hi == IF s.ok /\ v = 1 THEN t.hi + P2(t.depth) ELSE t.hi
  IN [lo |-> lo, hi |-> hi, depth |-> t.depth + 1, on |-> s.ok /\ <<lo, hi>> \notin turn,
      seen |-> t.seen \o s.seen, div |-> t.div \/ s.div]
=============================================================================
