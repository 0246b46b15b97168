-------------------------- MODULE AutoSelectTrace ---------------------------
(* Decides recorded runs of the implementation against AutoSelect. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Ranks, Points, Depth
VARIABLES crit, evals, ret, h, i
A == INSTANCE AutoSelect
Traces == JsonDeserialize(IOEnv.TRACE)
TInit == h \in 1..Len(Traces) /\ i = 0 /\ crit = <<>> /\ evals = <<>> /\ ret = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, crit, evals, ret>>
Failures == IF i = 0 THEN {} ELSE A!Failures(Traces[h][i])
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
