----------------------------- MODULE Selection ------------------------------
(***************************************************************************)
(* Parameter selection and update procedures acting on one model.          *)
(*                                                                         *)
(* The numerical optimization is left open: a procedure replaces the       *)
(* model's parameters by new ones (a fresh token).  What is specified is   *)
(* where it starts, where its prior is centred, and what it leaves behind. *)
(* Sources of a parameter vector: "A" the value supplied as initial        *)
(* parameters, "B" the value supplied for the starting point only, "C" the *)
(* value supplied for the prior only, "guess" the data-driven guess and    *)
(* "model" the parameters the model holds.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Kind   (* Kind: "unknown" or "parameter" (mean of the model) *)

VARIABLES cov, hist
vars == <<cov, hist>>

Priorless == {"reml", "power", "custom"}
Centred == {"logsigma2", "both", "remap"}
Fams == IF Kind = "parameter" THEN {"ml"} ELSE Priorless \cup Centred

Options(f, up) ==
  IF f \in Centred THEN SUBSET {"A", "B", "C"}
  ELSE IF up THEN {{}} ELSE IF f = "ml" THEN SUBSET {"A", "M"} ELSE {{}, {"A"}}

(* prior settings that can be given explicitly, and how the search is confined *)
Settings(f) == IF f = "logsigma2" THEN {"gamma", "coverage"}
               ELSE IF f \in Centred THEN {"gamma", "coverage", "alpha", "factor", "min", "variance", "ranges"} ELSE {}
Confined == {"auto", "delta", "box", "off"}
SigmaCentre(c, p) == IF "variance" \in p THEN "given" ELSE c
RangeCentre(c, p) == IF "ranges" \in p THEN "given" ELSE c
LeastRange(p) == IF "min" \in p THEN "given" ELSE IF "factor" \in p THEN "data, factor given" ELSE "data"

Calls == UNION {{[fam |-> f, up |-> up, src |-> s, opt |-> o, info |-> i, meth |-> m] :
                 s \in {"arrays", "loader"}, o \in Options(f, up), i \in BOOLEAN,
                 m \in {"SLSQP", "L-BFGS-B"}} : f \in Fams, up \in BOOLEAN}

Fallback(c) == IF c.up /\ cov # 0 THEN "model" ELSE "guess"
Start(c) == IF "B" \in c.opt THEN "B" ELSE IF "A" \in c.opt THEN "A" ELSE Fallback(c)
Centre(c) == IF c.fam \notin Centred THEN "none"
             ELSE IF "C" \in c.opt THEN "C" ELSE IF "A" \in c.opt THEN "A" ELSE Fallback(c)
MeanStart(c) == IF c.fam # "ml" THEN "none"
                ELSE IF "M" \in c.opt THEN "M" ELSE Fallback(c)

Init == cov = 0 /\ hist = <<>>
Call(c, p, b) ==
  /\ cov' = Len(hist) + 1
  /\ hist' = Append(hist, [op |-> "call", c |-> c, start |-> Start(c), centre |-> Centre(c), given |-> p, confined |-> b,
                           sigma |-> SigmaCentre(Centre(c), p), range |-> RangeCentre(Centre(c), p), least |-> LeastRange(p),
                           mean |-> MeanStart(c), before |-> cov, after |-> cov'])
Assign == /\ cov' = Len(hist) + 1
          /\ hist' = Append(hist, [op |-> "assign", after |-> cov'])
Predict == /\ cov # 0 /\ cov' = cov /\ hist' = Append(hist, [op |-> "predict"])
Next == Len(hist) < Depth /\ (Assign \/ Predict \/ \E c \in Calls : \E p \in {RandomElement(SUBSET Settings(c.fam))} :
                                 \E b \in {RandomElement(Confined)} : Call(c, p, b))

(* explicit values always win; the model is consulted only by updates *)
ExplicitWins == \A k \in 1..Len(hist) : hist[k].op = "call" =>
  LET h == hist[k]
  IN /\ ("B" \in h.c.opt => h.start = "B")
     /\ ("A" \in h.c.opt /\ "B" \notin h.c.opt => h.start = "A")
     /\ ("C" \in h.c.opt => h.centre = "C")
     /\ (h.centre # "none" => (h.sigma = h.centre) = ("variance" \notin h.given))
     /\ (h.start = "model" => h.c.up /\ h.before # 0)
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
