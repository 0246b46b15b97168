----------------------------- MODULE SplitsTrace -----------------------------
(***************************************************************************)
(* Decides recorded answers of split/fold calls against Splits.            *)
(* A trace is one process lifetime; `memo' remembers the answer given for  *)
(* each seeded call, so equal arguments must get equal answers.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat

CONSTANTS MaxN, Depth, Seeds
VARIABLES hist, h, i, memo
S == INSTANCE Splits

Traces == JsonDeserialize(IOEnv.TRACE)

TInit == /\ h \in 1..Len(Traces) /\ i = 0 /\ memo = {} /\ hist = <<>>
Rec == Traces[h][i]
TNext == /\ i < Len(Traces[h])
         /\ i' = i + 1
         /\ memo' = IF Traces[h][i + 1].op = "noise" THEN memo
                    ELSE memo \cup {[call |-> Traces[h][i + 1].call, res |-> Traces[h][i + 1].res]}
         /\ UNCHANGED <<h, hist>>

Structural(r) ==
  CASE r.op = "kfold" -> S!FoldFailures(r.call.n, r.call.k, r.res)
    [] r.op = "repeated" -> S!RepeatFailures(r.call.n, r.call.k, r.call.r, r.res)
    [] r.op = "split" -> S!SplitFailures(r.call.n, r.call.ratios, r.res)
                         \cup (IF r.paired THEN {} ELSE {"rows keep their observation"})
    [] OTHER -> {}

Repeatable ==
  \A a, b \in memo : a.call = b.call => a.res = b.res

Failures == IF i = 0 \/ Rec.op = "noise" THEN {}
            ELSE Structural(Rec)
                 \cup (IF Repeatable THEN {} ELSE {"same seed gives the same answer"})
Verdict == Failures # {} =>
  PrintT(ToJson([trace |-> h, step |-> i, call |-> Rec.call, failed |-> Failures]))
=============================================================================
