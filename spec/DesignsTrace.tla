---------------------------- MODULE DesignsTrace ----------------------------
(* Decides recorded random designs against Designs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode, Dims, Levels, Side, MaxPoints
VARIABLES c, lvl, h, i
D == INSTANCE Designs
Traces == JsonDeserialize(IOEnv.TRACE)
TInit == h \in 1..Len(Traces) /\ i = 0 /\ c = <<>> /\ lvl = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, c, lvl>>
Failures == IF i = 0 THEN {} ELSE D!Failures(Traces[h][i])
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
