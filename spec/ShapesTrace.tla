---------------------------- MODULE ShapesTrace ----------------------------
(* Decides recorded requests made one after another on the same model.       *)
EXTENDS Shapes, IOUtils
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
C == Traces[h][i]
Op == Traces[h][i].op
Fail(ok, what) == IF ok THEN {} ELSE {what}
Failures ==
  IF i = 0 THEN {} ELSE
  IF ~Fits(Op) THEN Fail(C.refused, "data that do not fit together are refused")
  ELSE IF C.refused THEN {"data that fit together are answered"}
  ELSE Fail(\A k \in 1..Len(C.shapes) : C.shapes[k] = Answer(Op), "one answer per target or observation")
       \cup Fail(C.same, "the answer is that for the same data in plain form")
Here(c) == x = c.x /\ z = c.z /\ t = c.t
TInit == h \in 1..Len(Traces) /\ i = 0 /\ moves = 0 /\ x = <<>> /\ z = <<>> /\ t = <<>>
TNext == /\ i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, moves>>
         /\ LET c == Traces[h][i + 1] IN x' = c.x /\ z' = c.z /\ t' = c.t
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
