------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Mini-batch loaders: passes, epochs, interleaved iterators.              *)
(*                                                                         *)
(* A loader has a seed and an epoch.  A pass started at epoch e delivers   *)
(* the batches Batch(settings, seed, e, 1..B); what the batches contain is *)
(* left to the implementation, but it is a function of exactly these       *)
(* arguments.  The epoch advances when an iterator exhausts a pass.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Loaders,   \* sequence of [n, bs, drop, shuffle, seed, infinite]
          MaxIts,    \* iterators opened in a history
          Epochs,    \* values for explicit setting
          Depth

VARIABLES epoch,     \* per loader
          its,       \* sequence of [ld, start, pos, open]
          hist
vars == <<epoch, its, hist>>

NB(l) == LET c == Loaders[l] IN
  IF c.drop THEN c.n \div c.bs ELSE (c.n + c.bs - 1) \div c.bs

LIds == 1..Len(Loaders)
Init == /\ epoch = [l \in LIds |-> 0] /\ its = <<>> /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Room == Len(hist) < Depth

(* opening takes the first batch: the pass starts there *)
Open(l) ==
  /\ Room /\ Len(its) < MaxIts
  /\ IF NB(l) = 0
     THEN /\ epoch' = [epoch EXCEPT ![l] = @ + 1]
          /\ its' = Append(its, [ld |-> l, start |-> epoch[l], pos |-> 0, open |-> FALSE])
          /\ Log([op |-> "open", ld |-> l, stop |-> TRUE])
     ELSE /\ its' = Append(its, [ld |-> l, start |-> epoch[l], pos |-> 1, open |-> TRUE])
          /\ Log([op |-> "open", ld |-> l, stop |-> FALSE, epoch |-> epoch[l], batch |-> 1])
          /\ UNCHANGED epoch

Advance(k) ==
  LET it == its[k]
      l == it.ld
  IN
  /\ Room /\ it.open
  /\ IF it.pos < NB(l)
     THEN /\ its' = [its EXCEPT ![k].pos = @ + 1]
          /\ Log([op |-> "next", it |-> k, ld |-> l, stop |-> FALSE,
                  epoch |-> it.start, batch |-> it.pos + 1])
          /\ UNCHANGED epoch
     ELSE /\ epoch' = [epoch EXCEPT ![l] = @ + 1]
          /\ IF Loaders[l].infinite
             THEN /\ its' = [its EXCEPT ![k].pos = 1, ![k].start = epoch[l] + 1]
                  /\ Log([op |-> "next", it |-> k, ld |-> l, stop |-> FALSE,
                          epoch |-> epoch[l] + 1, batch |-> 1])
             ELSE /\ its' = [its EXCEPT ![k].open = FALSE]
                  /\ Log([op |-> "next", it |-> k, ld |-> l, stop |-> TRUE])

Abandon(k) ==
  /\ Room /\ its[k].open
  /\ its' = [its EXCEPT ![k].open = FALSE]
  /\ Log([op |-> "close", it |-> k])
  /\ UNCHANGED epoch

SetEpoch(l, e) ==
  /\ Room
  /\ epoch' = [epoch EXCEPT ![l] = e]
  /\ Log([op |-> "setepoch", ld |-> l, epoch |-> e])
  /\ UNCHANGED its

(* random numbers drawn, or the generator reseeded, by something else *)
Noise(kind) == /\ Room /\ Log([op |-> kind]) /\ UNCHANGED <<epoch, its>>

Next == \/ \E l \in LIds : Open(l) \/ \E e \in Epochs : SetEpoch(l, e)
        \/ \E k \in 1..Len(its) : Advance(k) \/ Abandon(k)
        \/ \E kind \in {"draw", "reseed"} : Noise(kind)
Spec == Init /\ [][Next]_vars

(* ---- properties of the specification ---- *)
EpochOnlyByExhaustion ==
  [][\A l \in LIds : epoch'[l] # epoch[l] =>
       LET r == hist'[Len(hist')] IN
         \/ r.op = "setepoch" /\ epoch'[l] = r.epoch
         \/ r.op \in {"open", "next"} /\ epoch'[l] = epoch[l] + 1]_vars

(* a batch is identified by its loader, epoch and number: within one pass  *)
(* the numbers are 1..NB in order without gap                              *)
InOrder ==
  \A a, b \in 1..Len(hist) :
    (/\ a < b /\ hist[a].op = "next" /\ hist[b].op = "next"
     /\ hist[a].it = hist[b].it /\ ~hist[a].stop /\ ~hist[b].stop
     /\ \A m \in (a + 1)..(b - 1) : hist[m].op = "next" => hist[m].it # hist[a].it)
    => \/ hist[b].batch = hist[a].batch + 1 /\ hist[b].epoch = hist[a].epoch
       \/ hist[b].batch = 1 /\ hist[a].batch = NB(hist[a].ld)
PosInRange == \A k \in 1..Len(its) : its[k].pos \in 0..NB(its[k].ld)

Emit == Len(hist) = Depth =>
  PrintT(ToJson([steps |-> hist, final |-> [l \in LIds |-> epoch[l]]]))
=============================================================================
