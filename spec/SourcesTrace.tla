---------------------------- MODULE SourcesTrace ----------------------------
(* Decides recorded calls: which ingredient each call was seen to use.       *)
EXTENDS Sources, IOUtils
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
AsSet(s) == {s[k] : k \in 1..Len(s)}
T == Traces[h]
C == T[i]
Want == Outcome(AsSet(C.record), AsSet(C.given))
Fail(ok, what) == IF ok THEN {} ELSE {what}
Failures ==
  IF i = 0 THEN {} ELSE
     Fail(C.refused = Want.refused, "a call is refused exactly when an ingredient is missing")
     \cup (IF C.refused \/ Want.refused THEN {} ELSE
             UNION {Fail(C.used[k] = Want.used[k], IF Want.used[k] = "given" THEN "what the call names is used"
                                                   ELSE "what the call leaves out is read off the record") : k \in Items})
     \cup Fail(C.record_kept, "the record is left as it was")
TInit == h \in 1..Len(Traces) /\ i = 0 /\ record = {} /\ calls = <<>>
TNext == i < Len(T) /\ i' = i + 1 /\ UNCHANGED <<h, record, calls>>
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
