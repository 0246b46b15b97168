------------------------------ MODULE NutsTrace -----------------------------
(***************************************************************************)
(* Decides recorded transitions.                                           *)
(*  move: bad, turn as in NutsTree (for the points reached), seen: points  *)
(*        visited in order, chosen, depth, steps, div, limit               *)
(*  cell: hits in a cell after one transition from the target, against its *)
(*        probability (per 2^12)                                           *)
(*  swap: transitions from one cell to another, and back                   *)
(***************************************************************************)
EXTENDS NutsTree, TLC, Json, IOUtils
VARIABLES h, i, t
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces[h][i]
Bad == {R.bad[k] : k \in 1..Len(R.bad)}
Turn == {<<R.turn[k][1], R.turn[k][2]>> : k \in 1..Len(R.turn)}
Prefix(s, r) == Len(s) <= Len(r) /\ \A k \in 1..Len(s) : s[k] = r[k]
RECURSIVE Follow(_)
(* the states reachable by directions agreeing with what was visited *)
Follow(u) ==
  IF ~u.on \/ u.depth >= R.limit THEN {u}
  ELSE UNION {Follow(w) : w \in {x \in {Double(u, v, Bad, Turn) : v \in {-1, 1}} : Prefix(x.seen, R.seen)}}
Move ==
  LET F == {u \in Follow(Start(0)) : u.seen = R.seen}
  IN IF F = {} THEN {"a transition doubles its trajectory until it turns or diverges"}
     ELSE LET u == CHOOSE y \in F : TRUE
          IN (IF R.depth # u.depth THEN {"the depth is the number of doublings"} ELSE {})
             \cup (IF R.steps # Len(u.seen) THEN {"leapfrog steps are counted"} ELSE {})
             \cup (IF (R.div = 1) # u.div THEN {"divergences are reported"} ELSE {})
             \cup (IF R.chosen < u.lo \/ R.chosen > u.hi THEN {"the next state is a point of a complete tree"} ELSE {})
             \cup (IF R.depth > R.limit THEN {"the depth is limited"} ELSE {})
(* 7 standard deviations of a binomial count *)
Dev(k, n, p) == LET d == 4096 * k - n * p IN (IF d < 0 THEN 0 - d ELSE d) \div 64
Cell == LET d == Dev(R.hits, R.total, R.prob)
        IN IF d > 46000 \/ d * d > 49 * (((R.total * R.prob) \div 4096) + 1) * (4096 - R.prob) + 49 * 4096
           THEN {"a transition leaves the target unchanged"} ELSE {}
Swap == LET d == R.there - R.back IN IF d * d > 49 * (R.there + R.back + 1) THEN {"transitions are as frequent as their reverse"} ELSE {}
Failures == IF i = 0 THEN {} ELSE CASE R.kind = "move" -> Move [] R.kind = "cell" -> Cell [] R.kind = "swap" -> Swap
TInit == h \in 1..Len(Traces) /\ i = 0 /\ t = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, t>>
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
