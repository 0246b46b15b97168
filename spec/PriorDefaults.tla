--------------------------- MODULE PriorDefaults ----------------------------
(***************************************************************************)
(* The default prior settings: four named values, changed by requests.     *)
(*                                                                         *)
(* A request names some settings and proposes for each an admissible value *)
(* (1..Good) or an inadmissible one (Good+1..Good+Bad); 0 means not named. *)
(* It is accepted as a whole or refused as a whole.  Computations use the  *)
(* explicit values they are given and the settings in force for the rest.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Good, Bad, Depth, Rich

VARIABLES now, hist
Fields == 1..4   (* factor on the variance, coverage, tail slope, range factor *)
Values == IF Rich THEN 0..(Good + Bad) ELSE {0, 2, Good + 1}
Requests == [Fields -> Values]
Admissible(r) == \A f \in Fields : r[f] <= Good
After(s, r) == [f \in Fields |-> IF r[f] = 0 THEN s[f] ELSE r[f]]

Init == now = [f \in Fields |-> 1] /\ hist = <<>>
Request(r, via) ==
  /\ now' = IF Admissible(r) THEN After(now, r) ELSE now
  /\ hist' = Append(hist, [op |-> "set", via |-> via, r |-> r, ok |-> Admissible(r),
                           now |-> now'])
Compute(r) ==
  /\ now' = now
  /\ hist' = Append(hist, [op |-> "use", r |-> r, ok |-> Admissible(r),
                           with |-> After(now, r), now |-> now])
Some(S) == IF Rich THEN {RandomElement(S)} ELSE S
Next == /\ Len(hist) < Depth
        /\ \/ \E r \in Some(Requests), via \in {"names", "kwargs"} : Request(r, via)
           \/ \E r \in Some(Requests) : Compute(r)
           \/ Compute([f \in Fields |-> 0])

AlwaysAdmissible == \A f \in Fields : now[f] \in 1..Good
(* each setting is the last admissible request that named it, or the first value *)
RECURSIVE Last(_, _)
Last(k, f) == IF k = 0 THEN 1
              ELSE IF hist[k].op = "set" /\ hist[k].ok /\ hist[k].r[f] # 0 THEN hist[k].r[f]
              ELSE Last(k - 1, f)
ExactlyNamed == \A f \in Fields : now[f] = Last(Len(hist), f)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
