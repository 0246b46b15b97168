------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Backend, precision and other global settings of one process.            *)
(*                                                                         *)
(* The backend starts undetermined.  Asking for it determines it from the  *)
(* environment, or by detection, once; an explicit request replaces it.    *)
(* Requests are accepted or refused as a whole, and the environment always *)
(* follows what was accepted.  Changing the environment behind the back of *)
(* a determined backend has no effect.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Rich, Detected

VARIABLES backend, envb, envd, device, seed, caches, first, hist
vars == <<backend, envb, envd, device, seed, caches, first, hist>>

Known == {"numpy", "torch"}
BackendWords == {"numpy", "torch", "Torch", "NUMPY", "jax", "tensorflow", "", "none"}
Meaning(w) == CASE w \in {"numpy", "NUMPY"} -> "numpy"
                [] w \in {"torch", "Torch"} -> "torch"
                [] OTHER -> "bad"
GoodTypes == {"float64", "double", "float", "np64", "Float64", "<f8", "torch64"}
BadTypes == {"float32", "np32", "int64", "float16", "complex64", "longdouble", "single", "junk", "f4",
             "object", "int", "bool", "complex", "complex128", "np16", "half", "bfloat16", "np128c", "npint",
             "float128", "torch32", "torch16", "list"}

Init == /\ backend = "unset"
        /\ envb \in {"unset", "numpy", "torch", "Torch", "jax"}
        /\ envd \in {"unset", "float64"}
        /\ device = 0 /\ seed = 0 /\ caches = {} /\ hist = <<>>
        /\ first = [envb |-> envb, envd |-> envd]

State == [backend |-> backend', envb |-> envb', envd |-> envd', device |-> device',
          seed |-> seed', caches |-> caches']
Log(r) == hist' = Append(hist, [r |-> r, s |-> State])
Same == UNCHANGED <<backend, envb, envd, device, seed, caches>>

Ask(how) ==
  LET found == IF envb = "unset" THEN Detected ELSE Meaning(envb)
  IN IF backend # "unset"
     THEN Same /\ Log([op |-> how, ok |-> TRUE, ans |-> backend])
     ELSE IF found = "bad"
     THEN Same /\ Log([op |-> how, ok |-> FALSE])
     ELSE /\ backend' = found /\ envb' = found /\ UNCHANGED <<envd, device, seed, caches>>
          /\ Log([op |-> how, ok |-> TRUE, ans |-> found])

SetBackend(w) ==
  IF Meaning(w) \in Known
  THEN /\ backend' = Meaning(w) /\ envb' = Meaning(w) /\ UNCHANGED <<envd, device, seed, caches>>
       /\ Log([op |-> "set_backend", w |-> w, ok |-> TRUE])
  ELSE Same /\ Log([op |-> "set_backend", w |-> w, ok |-> FALSE])

SetType(t) ==
  IF t \in GoodTypes
  THEN envd' = "float64" /\ UNCHANGED <<backend, envb, device, seed, caches>>
       /\ Log([op |-> "set_dtype", t |-> t, ok |-> TRUE])
  ELSE Same /\ Log([op |-> "set_dtype", t |-> t, ok |-> FALSE])

(* several settings at once; "-" means not named *)
Update(w, t, sd) ==
  LET ok == (w = "-" \/ Meaning(w) \in Known) /\ (t = "-" \/ t \in GoodTypes)
  IN IF ok
     THEN /\ backend' = (IF w = "-" THEN backend ELSE Meaning(w))
          /\ envb' = (IF w = "-" THEN envb ELSE Meaning(w))
          /\ envd' = (IF t = "-" THEN envd ELSE "float64")
          /\ seed' = (IF sd = 0 THEN seed ELSE sd)
          /\ UNCHANGED <<device, caches>>
          /\ Log([op |-> "update", w |-> w, t |-> t, seed |-> sd, ok |-> TRUE])
     ELSE Same /\ Log([op |-> "update", w |-> w, t |-> t, seed |-> sd, ok |-> FALSE])

Environment(w) == envb' = w /\ UNCHANGED <<backend, envd, device, seed, caches>>
                  /\ Log([op |-> "environment", w |-> w])
Device(k) == device' = k /\ UNCHANGED <<backend, envb, envd, seed, caches>>
             /\ Log([op |-> "set_device", k |-> k])
Put(k) == caches' = caches \cup {k} /\ UNCHANGED <<backend, envb, envd, device, seed>>
          /\ Log([op |-> "put", k |-> k])
Clear(k) == caches' = (IF k = "all" THEN {} ELSE caches \ {k})
            /\ UNCHANGED <<backend, envb, envd, device, seed>>
            /\ Log([op |-> "clear", k |-> k])

Next == /\ Len(hist) < Depth /\ UNCHANGED first
        /\ \/ \E how \in {"get_backend", "init_backend"} : Ask(how)
           \/ \E w \in BackendWords : SetBackend(w)
           \/ \E t \in GoodTypes \cup BadTypes : SetType(t)
           \/ \E w \in {"-", "numpy", "Torch", "jax"}, t \in {"-", "double", "float32", "int64"},
                 sd \in {0, 5} : Update(w, t, sd)
           \/ \E w \in {"unset", "numpy", "torch", "jax"} : Environment(w)
           \/ Rich /\ \E k \in 1..2 : Device(k)
           \/ Rich /\ \E k \in {"a", "b"} : Put(k)
           \/ Rich /\ \E k \in {"a", "b", "all"} : Clear(k)

Determined == backend \in Known \cup {"unset"}
(* once determined, only an accepted explicit request changes the backend *)
Stable == [][ (backend # "unset" /\ backend' # backend) =>
              LET r == hist'[Len(hist')].r
              IN r.op \in {"set_backend", "update"} /\ r.ok ]_vars
RefusedChangesNothing == [][ (LET r == hist'[Len(hist')].r IN "ok" \in DOMAIN r /\ ~r.ok) =>
              UNCHANGED <<backend, envb, envd, device, seed, caches>> ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(
  [envb |-> first.envb, envd |-> first.envd, hist |-> hist]))
=============================================================================
