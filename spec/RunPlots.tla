------------------------------ MODULE RunPlots ------------------------------
(***************************************************************************)
(* What plots of a sampler run show, as functions of what was recorded:    *)
(* traces of chains with the end of the burn-in, stairs of the quantities  *)
(* logged at each stage with a mark where a stage begins, moving averages, *)
(* and histograms of the retained states.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sum(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k - 1] + s[k] IN f[Len(s)]
Least(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : v <= s[k]
Most(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : v >= s[k]

(* one slot per acceptance rate of a stage, or a single one without moves *)
Slots(log) ==
  LET rates(e) == IF e.rates = <<>> THEN <<0>> ELSE e.rates
      f[k \in 0..Len(log)] == IF k = 0 THEN <<>> ELSE f[k - 1] \o
        [j \in 1..Len(rates(log[k])) |-> [stage |-> log[k].stage, target |-> log[k].target, current |-> log[k].current,
                                          ess |-> log[k].ess, rate |-> rates(log[k])[j]]]
  IN f[Len(log)]
Stairs(y) == [k \in 1..(2 * Len(y)) |-> <<k \div 2, y[(k + 1) \div 2]>>]
Of(slots, q) == [k \in 1..Len(slots) |-> slots[k][q]]
Marks(slots) == {k - 1 : k \in {j \in 1..Len(slots) : slots[j].stage > 0 /\ \A i \in 1..(j - 1) : slots[i].stage < slots[j].stage}}

(* sums over windows; the mean is shown where the window ends *)
Windows(y, w) == [k \in 1..(Len(y) - w + 1) |-> <<k + w - 2, Sum(SubSeq(y, k, k + w - 1))>>]
Averaged(y, w) == IF w > 1 /\ Len(y) >= w THEN Windows(y, w) ELSE <<>>

(* equal bins from the least to the largest value (one unit wide when they agree); twice the values, to stay whole *)
Low(v) == 2 * Least(v) - IF Least(v) = Most(v) THEN 1 ELSE 0
High(v) == 2 * Most(v) + IF Least(v) = Most(v) THEN 1 ELSE 0
Edges(v, b) == [k \in 1..(b + 1) |-> Low(v) * b + (k - 1) * (High(v) - Low(v))]
Counts(v, b) == [k \in 1..b |-> Cardinality({i \in 1..Len(v) :
  /\ 2 * v[i] * b >= Edges(v, b)[k]
  /\ 2 * v[i] * b < Edges(v, b)[k + 1] \/ (k = b /\ 2 * v[i] * b = Edges(v, b)[k + 1])})]
Kept(v, keep) == LET f[k \in 0..Len(v)] == IF k = 0 THEN <<>> ELSE IF keep[k] = 1 THEN Append(f[k - 1], v[k]) ELSE f[k - 1]
                 IN f[Len(v)]

CONSTANTS Length, Values
VARIABLES y, w, log
Seqs(n, S) == UNION {[1..k -> S] : k \in 1..n}
Entry == [stage : 0..2, target : {1}, current : {2}, ess : {3}, rates : {<<>>, <<1>>, <<2, 1>>}]
Init == /\ y \in Seqs(Length, Values) /\ w \in 1..4 /\ log = <<>>
Next == /\ Len(log) < 3 /\ y = <<0>> /\ w = 1 /\ \E e \in Entry : (IF log = <<>> THEN TRUE ELSE e.stage >= log[Len(log)].stage) /\ log' = Append(log, e)
        /\ UNCHANGED <<y, w>>

(* neighbouring steps of the stairs meet, and every step is one unit wide *)
Connected == \A k \in 1..(2 * Len(y) - 1) : LET s == Stairs(y) IN
  IF k % 2 = 1 THEN s[k][2] = s[k + 1][2] /\ s[k + 1][1] = s[k][1] + 1 ELSE s[k][1] = s[k + 1][1]
OneMarkPerStage == Cardinality(Marks(Slots(log))) = Cardinality({log[k].stage : k \in 1..Len(log)} \ {0})
AllMoves == Len(Slots(log)) >= Len(log) /\ Sum(Of(Slots(log), "rate")) = Sum([k \in 1..Len(log) |-> Sum(log[k].rates)])
Between == \A k \in 1..Len(Averaged(y, w)) : LET a == Averaged(y, w)[k] IN w * Least(y) <= a[2] /\ a[2] <= w * Most(y) /\ a[1] < Len(y)
Everything == Sum(Counts(y, w)) = Len(y)
=============================================================================
