------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Where a diagnostic takes its ingredients from.  A fit leaves a record   *)
(* holding some of the ingredients; a call names others itself.  What the  *)
(* call names is used, what it does not name is read off the record, and a *)
(* call with an ingredient found nowhere is refused.  A call changes       *)
(* neither the record nor later calls.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Items, MaxCalls
VARIABLES record, calls
vars == <<record, calls>>

Source(r, g, i) == IF i \in g THEN "given" ELSE IF i \in r THEN "recorded" ELSE "nowhere"
Refused(r, g) == \E i \in Items : Source(r, g, i) = "nowhere"
Outcome(r, g) == [given |-> g, refused |-> Refused(r, g), used |-> [i \in Items |-> IF Refused(r, g) THEN "nowhere" ELSE Source(r, g, i)]]

Init == record \in SUBSET Items /\ calls = <<>>
Call(g) == Len(calls) < MaxCalls /\ calls' = Append(calls, Outcome(record, g)) /\ UNCHANGED record
Next == \E g \in SUBSET Items : Call(g)

Answered(k) == ~calls[k].refused
(* what a call names is what it uses *)
NamedUsed == \A k \in 1..Len(calls) : Answered(k) => \A i \in calls[k].given : calls[k].used[i] = "given"
(* the record only serves what the call leaves out *)
RecordServes == \A k \in 1..Len(calls) : Answered(k) => \A i \in Items \ calls[k].given : i \in record /\ calls[k].used[i] = "recorded"
RefusedIffMissing == \A k \in 1..Len(calls) : calls[k].refused <=> ~(Items \subseteq (record \cup calls[k].given))
(* naming more never turns an answer into a refusal *)
MoreNeverHurts == \A k, l \in 1..Len(calls) : (calls[k].given \subseteq calls[l].given /\ Answered(k)) => Answered(l)
(* equal calls get equal answers, whatever came between *)
NoMemory == \A k, l \in 1..Len(calls) : calls[k].given = calls[l].given => calls[k] = calls[l]
Emit == Len(calls) = MaxCalls => PrintT(ToJson([record |-> record, calls |-> [k \in 1..MaxCalls |-> calls[k].given]]))
=============================================================================
