------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* The stream of random numbers behind a session.  Seeding restarts it,    *)
(* random operations take from it, other calls leave it alone, operations  *)
(* given a seed of their own depend on that seed only and leave the stream *)
(* wherever they like.  A result is a function of the seed and of the      *)
(* random operations made since: its origin.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Draws, Calls, Own, Seeds
VARIABLES seed, used, hist
vars == <<seed, used, hist>>
Unknown == 0
Init == seed = Unknown /\ used = <<>> /\ hist = <<>>
Log(r) == Len(hist) < Depth /\ hist' = Append(hist, r)
Seed(s) == seed' = s /\ used' = <<>> /\ Log([op |-> "seed", arg |-> s])
Draw(o) == used' = Append(used, o) /\ UNCHANGED seed /\ Log([op |-> o, arg |-> 0])
Call(o) == UNCHANGED <<seed, used>> /\ Log([op |-> o, arg |-> 0])
OwnDraw(o, s) == seed' = Unknown /\ used' = <<>> /\ Log([op |-> o, arg |-> s])
Next == \/ \E s \in Seeds : Seed(s)
        \/ \E o \in Draws : Draw(o)
        \/ \E o \in Calls : Call(o)
        \/ \E o \in Own, s \in Seeds : OwnDraw(o, s)

(* where the k-th operation of a history takes its randomness from *)
Last(h, k) == LET s == {j \in 1..(k - 1) : h[j].op = "seed" \/ h[j].op \in Own}
              IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A i \in s : i <= j
Taken(h, k) == SelectSeq(SubSeq(h, Last(h, k) + 1, k - 1), LAMBDA r : r.op \in Draws)
Known(h, k) == Last(h, k) > 0 /\ h[Last(h, k)].op = "seed"
Origin(h, k) == [op |-> h[k].op, seed |-> h[Last(h, k)].arg, after |-> [i \in 1..Len(Taken(h, k)) |-> Taken(h, k)[i].op]]
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* the state of the stream is what the history says *)
Tracked == LET k == Len(hist) + 1
               h == Append(hist, [op |-> "rand", arg |-> 0])
           IN /\ Known(h, k) <=> seed # Unknown
              /\ seed # Unknown => /\ Origin(h, k).seed = seed
                                   /\ Origin(h, k).after = used
(* two equal operations in a row never share their origin *)
Fresh == \A i, j \in 1..Len(hist) :
  (i < j /\ hist[i].op \in Draws /\ hist[i].op = hist[j].op /\ Known(hist, i) /\ Last(hist, i) = Last(hist, j))
     => Origin(hist, i) # Origin(hist, j)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
