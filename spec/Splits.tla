------------------------------- MODULE Splits -------------------------------
(***************************************************************************)
(* Random splits and cross-validation folds.                               *)
(*                                                                         *)
(* The specification leaves the shuffling open: a result is admissible if  *)
(* it is SOME partition with the right sizes, and it is a function of the  *)
(* arguments including the seed, whatever was drawn before.  `Next'        *)
(* enumerates call histories to be run on the implementation; SplitsTrace  *)
(* decides whether the recorded answers are admissible.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS MaxN, Depth, Seeds

Ratios == { <<8, 1, 1>>, <<5, 5, 0>>, <<0, 0, 10>>, <<10, 0, 0>>, <<0, 10, 0>>,
            <<7, 2, 1>>, <<3, 3, 4>>, <<1, 9, 0>> }

(* ---- sizes ---- *)
FoldSize(n, k, j) == (n \div k) + (IF j <= n % k THEN 1 ELSE 0)
SizesAddUp == \A n \in 1..(3 * MaxN) : \A k \in 1..(n + 2) :
  /\ ISum([j \in 1..k |-> FoldSize(n, k, j)]) = n
  /\ \A i, j \in 1..k : FoldSize(n, k, i) - FoldSize(n, k, j) \in {-1, 0, 1}

(* ---- admissible answers; rows are 0..n-1, answers are sequences ---- *)
AsSet(s) == {s[j] : j \in 1..Len(s)}
IsPartOf(s, n) == AsSet(s) \subseteq 0..(n - 1)
NoRepeat(s) == Cardinality(AsSet(s)) = Len(s)

FoldFailures(n, k, res) ==
  LET val(j) == res[j].val
      trn(j) == res[j].train
  IN  IF Len(res) # k THEN {"exactly k pairs"}
      ELSE (IF \A j \in 1..k : IsPartOf(val(j), n) /\ NoRepeat(val(j))
              THEN {} ELSE {"validation rows are distinct dataset rows"})
        \cup (IF \A i, j \in 1..k : i < j => AsSet(val(i)) \cap AsSet(val(j)) = {}
              THEN {} ELSE {"validation sets are disjoint"})
        \cup (IF UNION {AsSet(val(j)) : j \in 1..k} = 0..(n - 1)
              THEN {} ELSE {"validation sets cover all rows"})
        \cup (IF \A i, j \in 1..k : Len(val(i)) - Len(val(j)) \in {-1, 0, 1}
              THEN {} ELSE {"fold sizes differ by at most one"})
        \cup (IF \A j \in 1..k : /\ NoRepeat(trn(j))
                                 /\ AsSet(trn(j)) = (0..(n - 1)) \ AsSet(val(j))
              THEN {} ELSE {"training set is the complement"})

RepeatFailures(n, k, r, res) ==
  IF Len(res) # k * r THEN {"exactly k pairs per repetition"}
  ELSE UNION {FoldFailures(n, k, SubSeq(res, (j - 1) * k + 1, j * k)) : j \in 1..r}

(* part sizes implied by ratios over ten, up to rounding one row *)
SizeOk(len, num, n) == 10 * len >= num * n - 10 /\ 10 * len <= num * n + 10
SplitFailures(n, ratios, parts) ==
  (IF \A j \in 1..3 : IsPartOf(parts[j], n) /\ NoRepeat(parts[j])
     THEN {} ELSE {"parts hold distinct dataset rows"})
  \cup (IF \A i, j \in 1..3 : i < j => AsSet(parts[i]) \cap AsSet(parts[j]) = {}
     THEN {} ELSE {"parts are disjoint"})
  \cup (IF UNION {AsSet(parts[j]) : j \in 1..3} = 0..(n - 1)
     THEN {} ELSE {"parts cover all rows"})
  \cup (IF \A j \in 1..2 : SizeOk(Len(parts[j]), ratios[j], n)
     THEN {} ELSE {"part sizes follow the ratios"})

(* ---- call histories ---- *)
VARIABLES hist
Calls ==
  {[op |-> "kfold", n |-> n, k |-> k, seed |-> s] :
     n \in 2..MaxN, k \in 2..(MaxN + 1), s \in Seeds}
  \cup {[op |-> "repeated", n |-> n, k |-> k, r |-> r, seed |-> s] :
     n \in 2..(MaxN \div 2), k \in 2..3, r \in 1..3, s \in Seeds}
  \cup {[op |-> "split", n |-> n, ratios |-> rt, cut |-> c, seed |-> s] :
     n \in 1..MaxN, rt \in Ratios, c \in 0..2, s \in Seeds}

Init == hist = <<>>
Call(c) == hist' = Append(hist, c)
Noise == hist' = Append(hist, [op |-> "noise"])

(* every call alone, then repeated after unrelated draws *)
Single == \/ /\ hist = <<>> /\ \E c \in Calls : Call(c)
          \/ /\ Len(hist) = 1 /\ Noise
          \/ /\ Len(hist) = 2 /\ Call(hist[1])
SingleDone == Len(hist) = 3 => PrintT(ToJson(hist))

(* all interleavings of a few calls *)
Few == {[op |-> "kfold", n |-> 7, k |-> 3, seed |-> s] : s \in Seeds}
  \cup {[op |-> "split", n |-> 6, ratios |-> <<7, 2, 1>>, cut |-> 1, seed |-> s] : s \in Seeds}
  \cup {[op |-> "repeated", n |-> 5, k |-> 2, r |-> 2, seed |-> s] : s \in Seeds}
Mixed == /\ Len(hist) < Depth
         /\ (Noise \/ \E c \in Few : Call(c))
MixedDone == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
