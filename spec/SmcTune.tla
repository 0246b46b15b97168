------------------------------- MODULE SmcTune ------------------------------
(***************************************************************************)
(* The moves of one stage of the particle sampler.  A stage starts with a  *)
(* tuning phase: after a move whose acceptance is under (over) the         *)
(* requested window the proposal scale is divided (multiplied) by a fixed  *)
(* factor and another move is made; the phase ends with the first move     *)
(* inside the window, or after Max moves.  Then the remaining Steps - 1    *)
(* moves are made at the scale that was reached.                           *)
(* The scale is its exponent e: initial scale times factor^e.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Max, Steps
VARIABLES st, hist
Start == [e |-> 0, tuned |-> 0, extra |-> 0, phase |-> "tune"]
After(s, c, max, steps) ==
  LET rest(u) == IF steps <= 1 THEN "end" ELSE "extra"
  IN IF s.phase = "tune"
     THEN LET t == s.tuned + 1
              e == IF c = "low" THEN s.e - 1 ELSE IF c = "high" THEN s.e + 1 ELSE s.e
          IN [e |-> e, tuned |-> t, extra |-> 0,
              phase |-> IF c = "in" \/ t = max THEN rest(0) ELSE "tune"]
     ELSE [s EXCEPT !.extra = s.extra + 1, !.phase = IF s.extra + 1 = steps - 1 THEN "end" ELSE "extra"]
Class(a, n, lo, hi) == IF 10000 * a < lo * n THEN "low" ELSE IF 10000 * a > hi * n THEN "high" ELSE "in"

Init == st = Start /\ hist = <<>>
Next == /\ st.phase # "end"
        /\ \E c \in {"low", "in", "high"} :
             /\ st' = After(st, c, Max, Steps)
             /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_<<st, hist>> /\ WF_<<st, hist>>(Next)

Count(c) == Len(SelectSeq(SubSeq(hist, 1, st.tuned), LAMBDA x : x = c))
Ends == <>(st.phase = "end")
Bounded == /\ st.tuned <= Max /\ st.extra <= Steps - 1
           /\ Len(hist) = st.tuned + st.extra
           /\ st.phase = "end" => Len(hist) >= Steps
ScaleIsNet == st.e = Count("high") - Count("low")
(* tuning goes on only out of the window *)
Reason == \A k \in 1..(st.tuned - 1) : hist[k] # "in"
Settled == [][st.phase = "extra" => st'.e = st.e]_st
=============================================================================
