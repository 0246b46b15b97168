---------------------------- MODULE RunPlotsTrace ---------------------------
(***************************************************************************)
(* Decides recorded plots of sampler runs.  Recorded numbers that are only *)
(* copied are replaced by the position of their value in a table, numbers  *)
(* that are computed with are whole.                                       *)
(***************************************************************************)
EXTENDS RunPlots, Json, IOUtils
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces[h][i]
Set(s) == {s[k] : k \in 1..Len(s)}
Fail(ok, what) == IF ok THEN {} ELSE {what}
Shown(a, want, burn) ==
  Fail(Len(a.curves) = Len(want) /\ Set(a.curves) = Set(want), "one curve per chain, the recorded one")
  \cup Fail(Set(a.marks) = (IF burn > 0 THEN {burn} ELSE {}), "the end of the burn-in is marked")
Chains ==
  IF Len(R.axes) # Len(R.params) + Len(R.rates) THEN {"one panel per parameter asked for, and one for the rates"}
  ELSE UNION {Shown(R.axes[p], [c \in 1..Len(R.x) |-> R.x[c][R.params[p]]], R.burn) : p \in 1..Len(R.params)}
       \cup (IF R.rates = <<>> THEN {} ELSE Shown(R.axes[Len(R.axes)], R.rates[1], R.burn))
State == LET s == Slots(R.log) IN
  Fail(R.target = Stairs(Of(s, "target")), "stairs of the target parameters")
  \cup Fail(R.current = Stairs(Of(s, "current")), "stairs of the current parameters")
  \cup Fail(R.ess = Stairs(Of(s, "ess")), "stairs of the effective sample sizes")
  \cup Fail(R.shownrates = Of(s, "rate"), "acceptance rates of all moves")
  \cup Fail(Set(R.marks) = Marks(s), "a mark where each stage begins")
Average ==
  Fail(R.raw = R.y, "the recorded statistic is drawn")
  \cup Fail(R.smooth = Averaged(R.y, R.window), "moving averages end at their iteration")
Hist == LET v == Kept(R.values, R.keep) IN
  Fail(R.edges = Edges(v, R.bins), "bins cover the retained values")
  \cup Fail(R.counts = Counts(v, R.bins), "the histogram counts the retained values")
Failures == IF i = 0 THEN {} ELSE
  CASE R.kind = "chains" -> Chains [] R.kind = "state" -> State [] R.kind = "average" -> Average [] R.kind = "hist" -> Hist
TInit == h \in 1..Len(Traces) /\ i = 0 /\ y = <<0>> /\ w = 1 /\ log = <<>>
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, y, w, log>>
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
