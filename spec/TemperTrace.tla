----------------------------- MODULE TemperTrace ----------------------------
(***************************************************************************)
(* Decides recorded tempering and subset-simulation runs.  Records:        *)
(*  stages: the parameters of the stages, by rank among (start, end,       *)
(*          stages) in the direction of the run; the end has rank `end`    *)
(*  stage:  one stage; the share of the requested score kept, per mille    *)
(*  subset: counts of survivors of each stage among n                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces[h][i]
Stages(r) ==
  (IF r.ranks[1] # 0 THEN {"the run starts at the initial parameter"} ELSE {})
  \cup (IF r.ranks[Len(r.ranks)] # r.end THEN {"the run ends exactly at the target parameter"} ELSE {})
  \cup (IF \E k \in 1..(Len(r.ranks) - 1) : r.ranks[k] >= r.ranks[k + 1]
        THEN {"parameters advance strictly towards the target"} ELSE {})
Stage(r) ==
  IF r.last = 1 THEN (IF r.kept < r.asked - 1 THEN {"the target is taken only when it keeps what was asked for"} ELSE {})
  ELSE IF r.kept < r.asked - 60 \/ r.kept > r.asked + 60 THEN {"every stage keeps what was asked for"} ELSE {}
Subset(r) ==
  (IF \E k \in 1..Len(r.counts) : r.counts[k] < 0 \/ r.counts[k] > r.n THEN {"survival fractions lie between zero and one"} ELSE {})
  \cup (IF r.alive # r.n THEN {"the final particles all satisfy the final threshold"} ELSE {})
  \cup (IF r.sure = 1 /\ (\E k \in 1..Len(r.counts) : r.counts[k] # r.n) THEN {"a sure event has probability one"} ELSE {})
TInit == h \in 1..Len(Traces) /\ i = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED h
Failures == IF i = 0 THEN {}
            ELSE IF R.kind = "stages" THEN Stages(R) ELSE IF R.kind = "stage" THEN Stage(R) ELSE Subset(R)
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
