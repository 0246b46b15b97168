---------------------------- MODULE StreamsTrace ----------------------------
(* Decides recorded sessions: `value` numbers the distinct results.          *)
EXTENDS Streams, IOUtils
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
T == Traces[h]
Earlier == {j \in 1..(i - 1) : T[j].op = T[i].op}
Fail(ok, what) == IF ok THEN {} ELSE {what}
Drawn ==
  IF ~Known(T, i) THEN {} ELSE
  LET a == Origin(T, i)
      others == {j \in Earlier : Known(T, j)}
  IN Fail(\A j \in others : Origin(T, j) = a => T[j].value = T[i].value, "the same seed and operations give the same result")
     \cup Fail(\A j \in others : LET b == Origin(T, j) IN
                 (b.seed = a.seed /\ (Prefix(a.after, b.after) \/ Prefix(b.after, a.after))) => T[j].value # T[i].value,
               "the stream moves on")
     \cup Fail(\A j \in others : LET b == Origin(T, j) IN (b.seed # a.seed /\ b.after = a.after) => T[j].value # T[i].value,
               "seeds differ")
Owned == Fail(\A j \in Earlier : T[j].arg = T[i].arg => T[j].value = T[i].value, "an operation with its own seed gives the same result")
         \cup Fail(\A j \in Earlier : T[j].arg # T[i].arg => T[j].value # T[i].value, "seeds differ")
Called == Fail(\A j \in Earlier : T[j].value = T[i].value, "a call without randomness gives the same result")
Failures == IF i = 0 THEN {} ELSE IF T[i].op = "seed" THEN {} ELSE
  IF T[i].op \in Draws THEN Drawn ELSE IF T[i].op \in Own THEN Owned ELSE Called
TInit == h \in 1..Len(Traces) /\ i = 0 /\ seed = Unknown /\ used = <<>> /\ hist = <<>>
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, seed, used, hist>>
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
