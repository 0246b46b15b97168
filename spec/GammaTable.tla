----------------------------- MODULE GammaTable -----------------------------
(***************************************************************************)
(* A table that grows on demand behind a query interface.                  *)
(*                                                                         *)
(* `cache' is the number of entries stored.  Queries ask for an order,     *)
(* clears drop the table, scribbles are a caller writing into a table it   *)
(* was handed.  The answer to a query is a function of the order alone.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Orders, Depth
VARIABLES cache, hist

Len2(p) == 2 * p + 2
Query(kind, p) ==
  /\ Len(hist) < Depth
  /\ cache' = IF cache < Len2(p) THEN Len2(p) ELSE cache
  /\ hist' = Append(hist, [op |-> kind, p |-> p, len |-> Len2(p)])
Clear == /\ Len(hist) < Depth /\ cache' = 0 /\ hist' = Append(hist, [op |-> "clear", p |-> 0, len |-> 0])
Init == cache = 0 /\ hist = <<>>
Next == (\E k \in {"table", "kernel", "scribble"} : \E p \in Orders : Query(k, p)) \/ Clear
Enough == \A k \in 1..Len(hist) :
  (\A j \in k..Len(hist) : hist[j].op # "clear") => cache >= hist[k].len
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
