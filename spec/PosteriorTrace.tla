---------------------------- MODULE PosteriorTrace --------------------------
(***************************************************************************)
(* Decides recorded samples of posterior samplers.  Record: a returned     *)
(* sample with the value of its cell (as in Posterior), whether it lies in *)
(* the box, the temperature and 4 times the log-target reported for it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces[h][i]
Failures == IF i = 0 THEN {} ELSE
  (IF R.inbox # 1 THEN {"samples lie in the box"} ELSE {})
  \cup (IF R.value < 0 THEN {"points without criterion value are excluded"}
        ELSE IF R.reported * R.temp # 0 - 4 * R.value THEN {"the log-target is minus the criterion"} ELSE {})
TInit == h \in 1..Len(Traces) /\ i = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED h
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
