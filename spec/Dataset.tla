------------------------------ MODULE Dataset ------------------------------
(***************************************************************************)
(* A dataset stored in shards, against the flat table it stands for.       *)
(*                                                                         *)
(* `shards' is the storage: a sequence of blocks of row identifiers.       *)
(* `flat' is what the user sees: one sequence of rows.  The actions build  *)
(* a dataset from any way of cutting the rows and take row subsets; the    *)
(* invariants say every observation through the storage equals the one on  *)
(* the flat table (sharding is invisible).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Rat, DataRows

CONSTANTS MaxN,      \* rows in a dataset
          MaxShards, \* blocks
          MaxIdx,    \* length of an index list
          Depth      \* subset operations in a row

VARIABLES shards, flat, hist
vars == <<shards, flat, hist>>

Quantiles == << <<0, 1>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<9, 10>>, <<1, 1>> >>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE Compositions(_, _)
Compositions(n, k) == (* sequences of k naturals of sum n *)
  IF k = 1 THEN {<<n>>}
  ELSE UNION {{<<m>> \o c : c \in Compositions(n - m, k - 1)} : m \in 0..n}

RECURSIVE Cut(_, _)
Cut(rows, sizes) ==
  IF sizes = <<>> THEN <<>>
  ELSE <<SubSeq(rows, 1, Head(sizes))>>
         \o Cut(SubSeq(rows, Head(sizes) + 1, Len(rows)), Tail(sizes))

(* ---- storage-level lookups: what a sharded implementation has to do ---- *)
RECURSIVE Total(_)
Total(ss) == IF ss = <<>> THEN 0 ELSE Len(Head(ss)) + Total(Tail(ss))

RECURSIVE LookUp(_, _)
LookUp(ss, i) == (* 0-based global position *)
  IF i < Len(Head(ss)) THEN Head(ss)[i + 1] ELSE LookUp(Tail(ss), i - Len(Head(ss)))

RECURSIVE ShardSubset(_, _, _)
ShardSubset(ss, sorted, start) == (* keep shard structure, drop empty blocks *)
  IF ss = <<>> THEN <<>>
  ELSE LET h == Head(ss)
           mine == SelectSeq(sorted, LAMBDA i : i >= start /\ i < start + Len(h))
           blk == [k \in 1..Len(mine) |-> h[mine[k] - start + 1]]
       IN (IF blk = <<>> THEN <<>> ELSE <<blk>>)
            \o ShardSubset(Tail(ss), sorted, start + Len(h))

(* ---- what a user can observe of a table ---- *)
Stats(v) ==
  [min |-> IMinS(v), max |-> IMaxS(v), mean |-> SMean(v),
   var |-> IF Len(v) > 1 THEN SVarU(v) ELSE <<0, 0>>,
   q |-> [k \in 1..Len(Quantiles) |-> SQuant(v, Quantiles[k])]]

Col(rows, F(_)) == [k \in 1..Len(rows) |-> F(rows[k])]

Obs(rows) ==
  IF rows = <<>> THEN [rows |-> rows]
  ELSE [rows |-> rows,
        x1 |-> Stats(Col(rows, X1)), x2 |-> Stats(Col(rows, X2)),
        z |-> Stats(Col(rows, ZV))]

Make(sizes, n) ==
  LET all == [k \in 1..n |-> k]
  IN /\ flat = all
     /\ shards = Cut(all, sizes)
     /\ hist = <<[op |-> "make", sizes |-> sizes, obs |-> Obs(all)]>>

Init == \E n \in 1..MaxN : \E k \in 1..MaxShards :
          \E sizes \in Compositions(n, k) : Make(sizes, n)

Subset(idx) ==
  LET sorted == ISort(idx)
      rows == [k \in 1..Len(sorted) |-> flat[sorted[k] + 1]]
  IN /\ Len(hist) <= Depth
     /\ flat # <<>>
     /\ flat' = rows
     /\ shards' = ShardSubset(shards, sorted, 0)
     /\ hist' = Append(hist, [op |-> "subset", idx |-> idx, obs |-> Obs(rows)])

Lists == UNION {[1..m -> 0..(Len(flat) - 1)] : m \in 0..MaxIdx}

Next == \E idx \in Lists : Subset(idx)
Spec == Init /\ [][Next]_vars

(* random larger instances of the same behaviour, for simulation *)
SimInit ==
  /\ flat = <<>> /\ shards = <<>> /\ hist = <<>>
SimNext ==
  \/ /\ hist = <<>>
     /\ \E k \in {RandomElement(1..MaxShards)} :
        \E c \in {TLCEval([j \in 1..k |-> RandomElement(0..3)])} :
        \E sz \in {IF ISum(c) = 0 THEN <<2>> \o c ELSE c} :
          LET all == [j \in 1..ISum(sz) |-> j]
          IN /\ flat' = all
             /\ shards' = Cut(all, sz)
             /\ hist' = <<[op |-> "make", sizes |-> sz, obs |-> Obs(all)]>>
  \/ /\ hist # <<>> /\ flat # <<>>
     /\ \E m \in {RandomElement(1..MaxIdx)} :
        \E idx \in {TLCEval([j \in 1..m |-> RandomElement(0..(Len(flat) - 1))])} :
          Subset(idx)

(* ---- sharding is invisible ---- *)
Faithful == Concat(shards) = flat
LengthAgrees == Total(shards) = Len(flat)
LookUpAgrees == \A i \in 0..(Len(flat) - 1) : LookUp(shards, i) = flat[i + 1]
NoRowInvented ==
  Len(hist) > 1 =>
    LET last == hist[Len(hist)] IN
      /\ Len(last.obs.rows) = Len(last.idx)
      /\ \A k \in 1..(Len(flat) - 1) : Len(hist) = 2 => flat[k] <= flat[k + 1]

Done == Len(hist) = Depth + 1 \/ (Len(hist) >= 1 /\ flat = <<>>)
Emit == Done => PrintT(ToJson(hist))
=============================================================================
