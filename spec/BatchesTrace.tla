---------------------------- MODULE BatchesTrace ----------------------------
(* Decides what a real loader delivered for each configuration of Batches. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat
CONSTANTS MaxN, MaxShards
VARIABLES cfg, h, i
B == INSTANCE Batches

Traces == JsonDeserialize(IOEnv.TRACE)
TInit == h \in 1..Len(Traces) /\ i = 0 /\ cfg = <<>>
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED <<h, cfg>>
Rec == Traces[h][i]

If(c, name) == IF c THEN {} ELSE {name}

PassFailures(c, p) == (* p: sequence of [x, z] of row ids *)
  LET nb == B!NB(c.n, c.bs, c.drop)
      all == B!Flat([b \in 1..Len(p) |-> p[b].x])
  IN If(Len(p) = nb, "a pass has the advertised number of batches")
     \cup If(\A b \in 1..Len(p) : p[b].x = p[b].z, "rows keep their observation")
     \cup If(\A b \in 1..Len(p) : b <= nb => Len(p[b].x) = B!BatchSize(c.n, c.bs, b),
             "every batch but the last has the requested size")
     \cup If(Cardinality(B!AsSet(all)) = Len(all), "no row is delivered twice")
     \cup If(Len(all) = B!Delivered(c.n, c.bs, c.drop) /\ B!AsSet(all) \subseteq 0..(c.n - 1),
             "every row is delivered")
     \cup If(c.shuffle \/ \A b \in 1..Len(p) : b <= nb => p[b].x = B!InOrder(c.n, c.bs, b),
             "an unshuffled pass is in dataset order")

Slice(p, s) == [j \in 1..Len(s) |-> p[s[j] + 1]]

Failures ==
  IF i = 0 THEN {}
  ELSE LET r == Rec
           c == r.cfg
           nb == B!NB(c.n, c.bs, c.drop)
           tot == Len(B!Flat([b \in 1..Len(r.pass) |-> r.pass[b].x]))
       IN PassFailures(c, r.pass) \cup PassFailures(c, r.again)
          \cup If(r.len = nb, "length is the number of batches of a pass")
          \cup If(r.collated.x = B!Flat([b \in 1..Len(r.pass) |-> r.pass[b].x])
                    /\ r.collated.z = B!Flat([b \in 1..Len(r.pass) |-> r.pass[b].z]),
                  "collating a pass concatenates its batches")
          \cup (IF tot = 0 \/ (c.drop /\ c.shuffle) THEN {}
                ELSE If(r.mean_cnt = tot /\ r.mean_num =
                          ISum(B!Flat([b \in 1..nb |-> B!InOrder(c.n, c.bs, b)])),
                        "mean reduction weights batches by their size"))
          \cup (IF c.shuffle
                THEN If(r.indexing = "refused", "indexing a shuffled loader is refused")
                ELSE If(r.byindex = r.pass, "batch indexing returns the batches of a pass")
                     \cup If(r.bynegative = r.pass, "batch indexing from the end")
                     \cup If(r.outside, "batch indices outside the pass are refused")
                     \cup If(\A k \in 1..Len(r.slices) :
                               r.slices[k].got = Slice(r.pass, r.slices[k].want),
                             "batch slicing returns the batches of a pass"))
Verdict == Failures # {} =>
  PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
