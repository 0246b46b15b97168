----------------------------- MODULE BatchCrit ------------------------------
(***************************************************************************)
(* Criteria evaluated over the batches of a loader.                        *)
(*                                                                         *)
(* A loader holds rows 0..n-1 in batches of `bs'.  A criterion object      *)
(* either reads a whole pass at each evaluation (bpe = 0) or keeps its own *)
(* place and reads the next `bpe' batches, going round cyclically.  The    *)
(* loss of one batch is  A(batch) * p1^2 + B(batch) * p2 ; the criterion   *)
(* is the mean of the batch losses weighted by batch sizes.  Two criteria  *)
(* share one loader and other readers may walk it in between.              *)
(*                                                                         *)
(* Every step of a history carries the batches that must have been read    *)
(* and the exact value or gradient.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS MaxN, MaxBs, MaxBpe, Depth, Small

VARIABLES cfg, place, last, hist
vars == <<cfg, place, last, hist>>

NB(c) == IF c.drop THEN c.n \div c.bs ELSE (c.n + c.bs - 1) \div c.bs
Rows(c, b) == [k \in 1..(IF b * c.bs <= c.n THEN c.bs ELSE c.n - (b - 1) * c.bs)
                 |-> (b - 1) * c.bs + k - 1]

(* loss of a batch: strongly different between batches and sizes *)
A(rows) == ISum([k \in 1..Len(rows) |-> rows[k] * rows[k] + 1])
B(rows) == rows[1] - 2 * Len(rows)

Points == {<<1, 2>>, <<3, -1>>, <<0, 5>>}

(* batches read from place `q' (number of batches already read) *)
Read(c, o, q) == IF c.bpe[o] = 0 THEN [k \in 1..NB(c) |-> k]
                 ELSE [k \in 1..c.bpe[o] |-> ((q + k - 1) % NB(c)) + 1]

Weight(c, read) == ISum([k \in 1..Len(read) |-> Len(Rows(c, read[k]))])
SumA(c, read) == ISum([k \in 1..Len(read) |-> Len(Rows(c, read[k])) * A(Rows(c, read[k]))])
SumB(c, read) == ISum([k \in 1..Len(read) |-> Len(Rows(c, read[k])) * B(Rows(c, read[k]))])
Value(c, read, p) == Q(SumA(c, read) * p[1] * p[1] + SumB(c, read) * p[2], Weight(c, read))
Grad(c, read, p) == << Q(2 * SumA(c, read) * p[1], Weight(c, read)),
                       Q(SumB(c, read), Weight(c, read)) >>

AllCfg == {[n |-> n, bs |-> bs, drop |-> d, bpe |-> <<b1, b2>>] :
             n \in 1..MaxN, bs \in 1..MaxBs, d \in BOOLEAN, b1 \in 0..MaxBpe, b2 \in {0, 2}}
SmallCfg == {[n |-> 5, bs |-> 2, drop |-> FALSE, bpe |-> <<2, 0>>],
             [n |-> 5, bs |-> 2, drop |-> TRUE, bpe |-> <<1, 2>>],
             [n |-> 4, bs |-> 3, drop |-> FALSE, bpe |-> <<3, 2>>],
             [n |-> 2, bs |-> 4, drop |-> FALSE, bpe |-> <<0, 2>>]}

Init == /\ cfg \in {c \in (IF Small THEN SmallCfg ELSE AllCfg) : NB(c) > 0}
        /\ place = <<0, 0>> /\ last = <<<<>>, <<>>>> /\ hist = <<>>

Evaluate(o, how, p) ==
  LET read == Read(cfg, o, place[o])
  IN /\ place' = [place EXCEPT ![o] = IF cfg.bpe[o] = 0 THEN @ ELSE (@ + cfg.bpe[o]) % NB(cfg)]
     /\ last' = IF how = "pre" THEN [last EXCEPT ![o] = <<p, read>>] ELSE last
     /\ hist' = Append(hist, [op |-> how, o |-> o, p |-> p, read |-> read,
                              value |-> Value(cfg, read, p)])
Gradient(o, p) ==
  /\ hist' = Append(hist, IF last[o] # <<>> /\ last[o][1] = p
                          THEN [op |-> "grad", o |-> o, p |-> p, read |-> <<>>,
                                grad |-> Grad(cfg, last[o][2], p)]
                          ELSE [op |-> "nograd", o |-> o, p |-> p, read |-> <<>>])
  /\ UNCHANGED <<place, last>>
Foreign(k) == hist' = Append(hist, [op |-> "foreign", k |-> k]) /\ UNCHANGED <<place, last>>

Next == /\ Len(hist) < Depth
        /\ UNCHANGED cfg
        /\ \/ \E o \in 1..2, how \in {"pre", "value", "plain"}, p \in Points : Evaluate(o, how, p)
           \/ \E o \in 1..2, p \in Points : Gradient(o, p)
           \/ \E k \in 1..2 : Foreign(k)

(* ---- theorems ---- *)
Reads(o) == LET f(k) == IF hist[k].op \in {"pre", "value", "plain"} /\ hist[k].o = o
                        THEN hist[k].read ELSE <<>>
            IN [k \in 1..Len(hist) |-> f(k)]
RECURSIVE Cat(_, _)
Cat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Cat(s, k + 1)
(* the concatenation of everything read walks the loader round and round *)
Cyclic == \A o \in 1..2 : LET all == Cat(Reads(o), 1)
                          IN \A k \in 1..Len(all) : all[k] = ((k - 1) % NB(cfg)) + 1
(* a whole pass weighs every delivered row once *)
FullPass == \A o \in 1..2 : cfg.bpe[o] = 0 =>
  Weight(cfg, Read(cfg, o, 0)) = (IF cfg.drop THEN NB(cfg) * cfg.bs ELSE cfg.n)
(* value and gradient belong together: the derivative of the value *)
Together == \A o \in 1..2 : last[o] # <<>> =>
  LET rd == last[o][2]
      p == last[o][1]
      d == QSub(Value(cfg, rd, <<p[1], p[2] + 1>>), Value(cfg, rd, <<p[1], p[2] - 1>>))
      e == QSub(Value(cfg, rd, <<p[1] + 1, p[2]>>), Value(cfg, rd, <<p[1] - 1, p[2]>>))
  IN Grad(cfg, rd, p) = << Q(e[1], 2 * e[2]), Q(d[1], 2 * d[2]) >>
Emit == Len(hist) = Depth => PrintT(ToJson([cfg |-> cfg, hist |-> hist]))
=============================================================================
