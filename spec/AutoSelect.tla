----------------------------- MODULE AutoSelect -----------------------------
(***************************************************************************)
(* Automatic parameter selection under an arbitrary criterion.             *)
(*                                                                         *)
(* The numerical optimizer is left open: it may evaluate any points in any *)
(* order, more than once, and stop at any of them.  The criterion gives    *)
(* every point one outcome: a finite value (a rank), infinity, not a       *)
(* number, or a linear-algebra failure.  What is specified is the          *)
(* selection around it: the history and the answer.                        *)
(*                                                                         *)
(* `Init'/`Next' explores all criteria and all optimizer behaviours up to  *)
(* a bound and checks that the answer rule is right; `Scripts' prints the  *)
(* assignments of outcomes to be run on the implementation, whose records  *)
(* AutoSelectTrace decides.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ranks,   (* number of finite values *)
          Points,  (* number of points *)
          Depth    (* number of evaluations *)

INF == 1000000
NAN == 2000000
FAIL == 3000000
Outcomes == (0..(Ranks - 1)) \cup {INF, NAN, FAIL}
Finite(v) == v < INF
Recorded(v) == IF v = FAIL THEN INF ELSE v

(* ---- the answer ---- *)
RECURSIVE BestOf(_, _, _)
BestOf(vals, k, b) ==
  IF k > Len(vals) THEN b
  ELSE BestOf(vals, k + 1,
              IF Finite(vals[k]) /\ (b = 0 \/ vals[k] < vals[b]) THEN k ELSE b)
(* the optimizer stopped at evaluation `last'; 0 <= answer is an evaluation *)
Answer(vals, last) ==
  LET b == BestOf(vals, 1, 0)
  IN IF b = 0 THEN last
     ELSE IF Finite(vals[last]) /\ vals[last] <= vals[b] THEN last ELSE b

(* failures of a recorded run: evals is a sequence of [pt, val, inside]  *)
If(c, name) == IF c THEN {} ELSE {name}
Failures(r) ==
  LET n == Len(r.evals)
      good == {k \in 1..n : Finite(r.evals[k].val) /\ r.evals[k].inside}
      same == {k \in 1..n : r.evals[k].pt = r.ret.pt}
  IN If(r.ret.inside, "the returned parameters lie within the bounds")
     \cup If(good = {} \/ (Finite(r.ret.val) /\ \A k \in good : r.ret.val <= r.evals[k].val),
             "no admissible evaluated point is better than the returned one")
     \cup If(same # {}, "the returned parameters were evaluated")
     \cup If(\A k \in same : Recorded(r.evals[k].val) = r.ret.val,
             "the reported value is the criterion at the returned parameters")
     \cup If(\E k \in 1..n : r.evals[k].pt = r.start, "the starting point is evaluated")
     \cup If(Len(r.hist) = n /\ \A k \in 1..n :
               r.hist[k].pt = r.evals[k].pt /\ r.hist[k].val = Recorded(r.evals[k].val),
             "the history lists exactly the evaluations made")
     \cup If(r.plain = r.ret.pt, "diagnostics do not change the answer")

(* ---- all criteria, all optimizer behaviours ---- *)
VARIABLES crit, evals, ret
vars == <<crit, evals, ret>>
Init == crit \in [1..Points -> Outcomes] /\ evals = <<1>> /\ ret = 0
Evaluate == /\ ret = 0 /\ Len(evals) < Depth
            /\ \E p \in 1..Points : evals' = Append(evals, p)
            /\ UNCHANGED <<crit, ret>>
Vals == [k \in 1..Len(evals) |-> crit[evals[k]]]
Stop == /\ ret = 0
        /\ \E last \in 1..Len(evals) : ret' = Answer(Vals, last)
        /\ UNCHANGED <<crit, evals>>
Next == Evaluate \/ Stop
Run == [evals |-> [k \in 1..Len(evals) |->
                     [pt |-> evals[k], val |-> Vals[k], inside |-> TRUE]],
        hist |-> [k \in 1..Len(evals) |-> [pt |-> evals[k], val |-> Recorded(Vals[k])]],
        ret |-> [pt |-> evals[ret], val |-> Recorded(Vals[ret]), inside |-> TRUE],
        plain |-> evals[ret], start |-> evals[1]]
AnswerIsRight == ret # 0 => Failures(Run) = {}
(* the decision is not vacuous: any other evaluated value is rejected *)
OthersRejected == ret # 0 =>
  \A k \in 1..Len(evals) :
    (Vals[k] # Vals[ret] /\ \E j \in 1..Len(evals) : Finite(Vals[j])) =>
      Failures([Run EXCEPT !.ret = [pt |-> evals[k], val |-> Recorded(Vals[k]), inside |-> TRUE],
                           !.plain = evals[k]]) # {}

(* ---- scripts ---- *)
SInit == crit = <<>> /\ evals = <<>> /\ ret = 0
SNext == Len(crit) < Points /\ \E o \in Outcomes : crit' = Append(crit, o)
         /\ UNCHANGED <<evals, ret>>
Emit == Len(crit) = Points => PrintT(ToJson(crit))
=============================================================================
