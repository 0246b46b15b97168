---------------------------- MODULE SmcTuneTrace ----------------------------
(***************************************************************************)
(* Decides recorded stages of the particle sampler with the transition     *)
(* function of SmcTune.  One record per stage: particles n, accepted       *)
(* counts acc, scale exponents e before every move, the one after the      *)
(* stage, and the requested window, limit and number of moves.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES h, i, st, hist
M == INSTANCE SmcTune WITH Max <- 1, Steps <- 1
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces[h][i]
RECURSIVE States(_, _)
States(r, k) == IF k = 0 THEN <<[M!Start EXCEPT !.e = r.e[1]]>>
                ELSE LET p == States(r, k - 1)
                         s == p[Len(p)]
                     IN Append(p, IF s.phase = "end" THEN [s EXCEPT !.phase = "over"]
                                  ELSE IF s.phase = "over" THEN s
                                  ELSE M!After(s, M!Class(r.acc[k], r.n, r.lo, r.hi), r.max, r.steps))
Stage(r) ==
  LET m == Len(r.acc)
      p == States(r, m)
      want == [k \in 1..(m + 1) |-> p[k].e]
      got == [k \in 1..(m + 1) |-> IF k <= m THEN r.e[k] ELSE r.last]
  IN (IF p[m + 1].phase # "end" THEN {"a stage tunes until the window is met or the limit reached, then makes the moves asked for"} ELSE {})
     \cup (IF p[m + 1].phase = "end" /\ want # got THEN {"the proposal scale follows the acceptance rate"} ELSE {})
TInit == h \in 1..Len(Traces) /\ i = 0 /\ st = 0 /\ hist = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, st, hist>>
Failures == IF i = 0 THEN {}
            ELSE Stage(R) \cup (IF i > 1 /\ Traces[h][i - 1].last # R.e[1] THEN {"a stage starts from the scale reached by the last"} ELSE {})
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
