------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* A model object as a user drives it: calls in any order, on any data,    *)
(* with parameter updates in between.  The only state is the current       *)
(* parameter; the answer to a call is a function of the call and of that   *)
(* state, never of the calls made before, and arguments keep their value.  *)
(***************************************************************************)
EXTENDS Kriging
CONSTANTS Mode, Depth
VARIABLES theta, hist
vars == <<theta, hist>>

G == << <<4, 2, -2, 2>>, <<2, 5, 1, 1>>, <<-2, 1, 6, 0>>, <<2, 1, 0, 3>> >>
Data == << [obs |-> <<1, 2, 4>>, z |-> <<2, -1, 3>>], [obs |-> <<4, 3, 2, 1>>, z |-> <<1, 0, -2, 5>>],
           [obs |-> <<3, 2, 1>>, z |-> <<4, 1, -1>>] >>   \* as many as in the first
Targets == <<3, 1, 2>>
Thetas == <<1, 3>>     \* nugget added to the diagonal of the table
W(t) == [g |-> [i \in 1..4 |-> [j \in 1..4 |-> G[i][j] + IF i = j THEN Thetas[t] ELSE 0]],
         p |-> << <<1>>, <<2>>, <<3>>, <<-1>> >>, mu |-> <<1, -2, 0, 3>>]

Answers == [d \in 1..Len(Data) |-> [t \in 1..2 |->
  LET w == W(t)
      obs == Data[d].obs
      z == Data[d].z
      pr == Predictor(w, obs, Targets, Mode)
  IN [mean |-> MeanAt(w, obs, z, Targets, Mode, pr.weights), cov |-> pr.cov, weights |-> pr.weights,
      loo |-> Loo(w, obs, z, Mode), quad |-> Quad(w, obs, z, Mode),
      det |-> DetTerm(w, obs, Mode), dof |-> Dof(w, obs, Mode)]]]

Ops == {"predict", "predictor_full", "predictor_weights", "loo", "likelihood", "likelihood_other", "norm",
        "fisher", "paths", "conditional"}
Call(op, d) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, [op |-> op, data |-> d, theta |-> theta]) /\ UNCHANGED theta
SetTheta(t) ==
  /\ Len(hist) < Depth /\ t # theta /\ theta' = t
  /\ hist' = Append(hist, [op |-> "set", data |-> 0, theta |-> t])
Init == theta = 1 /\ hist = <<>>
Next == (\E op \in Ops : \E d \in 1..Len(Data) : Call(op, d)) \/ (\E t \in 1..2 : SetTheta(t))

(* the recorded parameter is the one set last: the only memory there is *)
Memoryless == \A k \in 1..Len(hist) :
  hist[k].theta = LET s == {j \in 1..k : hist[j].op = "set"}
                  IN IF s = {} THEN 1 ELSE hist[CHOOSE j \in s : \A i \in s : i <= j].theta
Table == hist = <<>> => PrintT(ToJson([table |-> Answers, g |-> G, data |-> Data, targets |-> Targets,
                                       thetas |-> Thetas, p |-> W(1).p, mu |-> W(1).mu]))
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
