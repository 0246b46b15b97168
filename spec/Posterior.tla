------------------------------ MODULE Posterior -----------------------------
(***************************************************************************)
(* Sampling driven by a selection criterion.                               *)
(*                                                                         *)
(* "Form": what an argument giving initial states stands for.  It has no   *)
(* axis (a number), one (a point) or two; the state of chain i, coordinate *)
(* j is the entry at some position of it, or the argument is refused.      *)
(* "Map": a criterion constant on the cells of a grid, some without value, *)
(* and a box.  Sampling visits only cells that meet the box and have a     *)
(* value; the log-target there is minus the value over the temperature.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chains, Rows, Cols, Values, Side, Sampled

VARIABLES stage, n, shape, table, box, temp
vars == <<stage, n, shape, table, box, temp>>
Refused == <<>>

(* entries are named by their place: row * 10 + column (from 1) *)
Whole(r, c) == [i \in 1..r |-> [j \in 1..c |-> 10 * i + j]]
AsChains(m, s) ==
  CASE Len(s) = 0 -> [i \in 1..m |-> <<11>>]
    [] Len(s) = 1 -> [i \in 1..m |-> [j \in 1..s[1] |-> 10 + j]]
    [] Len(s) = 2 ->
         IF s[1] = m THEN Whole(m, s[2])
         ELSE IF s[1] = 1 THEN [i \in 1..m |-> [j \in 1..s[2] |-> 10 + j]]
         ELSE IF s[2] = m THEN [i \in 1..m |-> [j \in 1..s[1] |-> 10 * j + i]]
         ELSE Refused
(* particles: as many as rows, unless one row stands for all *)
AsCloud(m, s) ==
  CASE Len(s) = 0 -> [i \in 1..m |-> <<11>>]
    [] Len(s) = 1 -> [i \in 1..m |-> [j \in 1..s[1] |-> 10 + j]]
    [] Len(s) = 2 -> IF s[1] = 1 THEN [i \in 1..m |-> [j \in 1..s[2] |-> 10 + j]] ELSE Whole(s[1], s[2])

Init == stage = "new" /\ n = 0 /\ shape = <<>> /\ table = <<>> /\ box = <<>> /\ temp = 1
Form == /\ stage = "new" /\ stage' = "form" /\ UNCHANGED <<table, box, temp>>
        /\ n' \in Chains
        /\ shape' \in {<<>>} \cup {<<c>> : c \in Cols} \cup {<<r, c>> : r \in Rows, c \in Cols}
(* values: -1 infinite, -2 undefined, -3 fails *)
Cells == 0..(Side - 1)
Map == /\ stage = "new" /\ stage' = "map" /\ UNCHANGED <<n, shape>>
       /\ \E s \in 1..Sampled :
            \E t \in {TLCEval([i \in Cells |-> [j \in Cells |-> RandomElement(Values) - 3]])} : table' = t
       /\ \E bl \in {RandomElement(0..(2 * Side - 1))}, bh \in {RandomElement(1..(2 * Side))} :
             box' = IF bl < bh THEN <<bl, bh>> ELSE <<>>        (* in halves of a cell, both coordinates *)
       /\ temp' \in {RandomElement({1, 2, 4})}
Next == Form \/ Map

(******************************* properties ********************************)
Has(i, j) == table[i][j] >= 0
Meets(i) == box = <<>> \/ (2 * i < box[2] /\ 2 * (i + 1) > box[1])
Open(i, j) == Has(i, j) /\ Meets(i) /\ Meets(j)
Rectangular == stage = "form" =>
   \A m \in {AsChains(n, shape), AsCloud(n, shape)} : m = Refused \/
      (\A i, k \in 1..Len(m) : Len(m[i]) = Len(m[k]))
OnePerChain == stage = "form" => LET m == AsChains(n, shape) IN m = Refused \/ Len(m) = n
(* every entry given is used, and nothing else *)
Used(m) == {m[i][j] : i \in 1..Len(m), j \in 1..Len(m[1])}
NothingLost == stage = "form" =>
   \A m \in {AsChains(n, shape), AsCloud(n, shape)} : m = Refused \/
     Used(m) = (CASE Len(shape) = 0 -> {11} [] Len(shape) = 1 -> {10 + j : j \in 1..shape[1]}
                  [] Len(shape) = 2 -> {10 * i + j : i \in 1..shape[1], j \in 1..shape[2]})
Emit == /\ stage = "form" => PrintT(ToJson([kind |-> "form", n |-> n, shape |-> shape,
                                chains |-> AsChains(n, shape), cloud |-> AsCloud(n, shape)]))
        /\ stage = "map" /\ (\E i, j \in Cells : Open(i, j)) =>
              PrintT(ToJson([kind |-> "map", table |-> [i \in 1..Side |-> [j \in 1..Side |-> table[i - 1][j - 1]]], box |-> box, temp |-> temp,
                 open |-> {c \in Cells \X Cells : Open(c[1], c[2])}]))
=============================================================================
