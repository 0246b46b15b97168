------------------------------- MODULE Batches -------------------------------
(***************************************************************************)
(* What one complete pass of a loader delivers, for every way of sharding  *)
(* the rows and every batch size.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS MaxN, MaxShards
VARIABLES cfg

AsSet(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Compositions(_, _)
Compositions(n, k) ==
  IF k = 1 THEN {<<n>>}
  ELSE UNION {{<<m>> \o c : c \in Compositions(n - m, k - 1)} : m \in 0..n}

NB(n, bs, drop) == IF drop THEN n \div bs ELSE (n + bs - 1) \div bs
BatchSize(n, bs, b) == IF b * bs <= n THEN bs ELSE n - (b - 1) * bs
(* rows of the b-th batch of an unshuffled pass *)
InOrder(n, bs, b) == [j \in 1..BatchSize(n, bs, b) |-> (b - 1) * bs + j - 1]
Delivered(n, bs, drop) == IF drop THEN (n \div bs) * bs ELSE n

Init == cfg \in {[n |-> ISum(s), sizes |-> s, bs |-> b, drop |-> d, shuffle |-> sh] :
                 s \in UNION {Compositions(m, k) : m \in 1..MaxN, k \in 1..MaxShards},
                 b \in 1..(MaxN + 2), d \in BOOLEAN, sh \in BOOLEAN}
Next == UNCHANGED cfg

(* the unshuffled pass is a partition of the delivered rows into batches *)
PassIsPartition ==
  LET nb == NB(cfg.n, cfg.bs, cfg.drop)
      all == Flat([b \in 1..nb |-> InOrder(cfg.n, cfg.bs, b)])
  IN all = [j \in 1..Delivered(cfg.n, cfg.bs, cfg.drop) |-> j - 1]
Emit == PrintT(ToJson(cfg))
=============================================================================
