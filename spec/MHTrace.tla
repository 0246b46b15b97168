------------------------------- MODULE MHTrace ------------------------------
(***************************************************************************)
(* Decides recorded Metropolis-Hastings runs.  Records:                    *)
(*  step: one update of one chain; positions are identified by numbers and *)
(*        log-targets by their rank (-1: minus infinity or undefined)      *)
(*  freq: how often proposals of acceptance probability num/den succeeded  *)
(*  law:  the moves on a flat target, where all proposals are accepted:    *)
(*        thousandths of their mean and of their second moments in units   *)
(*        of the scales asked for, next to the correlations asked for      *)
(*  stop: a run with its acceptance record and integer states; burn-in     *)
(*        ends at the first block end where, over the last D states, all   *)
(*        sliding acceptance rates are inside the limits and the potential *)
(*        scale reduction is below 1.1, and at its full length otherwise   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat
VARIABLES h, i
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces[h][i]

Step(r) ==
  (IF i > 1 /\ (Traces[h][i - 1].next # r.prev \/ Traces[h][i - 1].nl # r.pl)
     THEN {"a step starts from the state and log-target where the last one ended"} ELSE {})
  \cup (IF r.a \notin {0, 1} THEN {"a step is accepted or rejected"} ELSE {})
  \cup (IF r.a = 1 /\ ~(r.next = r.prop /\ r.nl = r.yl /\ r.yl >= 0)
     THEN {"an accepted step moves to its proposal, never to an excluded one"} ELSE {})
  \cup (IF r.a = 0 /\ ~(r.next = r.prev /\ r.nl = r.pl)
     THEN {"a rejected step repeats state and log-target"} ELSE {})
  \cup (IF r.yl >= 0 /\ r.yl >= r.pl /\ r.a = 0
     THEN {"a proposal at or above the current log-target is accepted"} ELSE {})

(* seven standard deviations of a binomial count *)
Freq(r) == LET d == r.den * r.accepted - r.num * r.trials
           IN IF d * d > 49 * r.trials * r.num * (r.den - r.num)
              THEN {"proposals are accepted with the probability of the target ratio"} ELSE {}

(* seven standard deviations of a mean and of a mean product of normals; one    *)
(* thousandth is lost to rounding                                              *)
Off(d, trials, v) == LET e == IF d > 1 THEN d - 1 ELSE 0 IN e > 1000 \/ e * e * trials > 49 * v * 1000000
Law(r) ==
  LET n == Len(r.want)
  IN (IF \E a \in 1..n : Off(RAbs(r.mean[a]), r.trials, 1) THEN {"proposals are centred on the current state"} ELSE {})
     \cup (IF \E a, b \in 1..n : Off(RAbs(r.got[a][b] - r.want[a][b]), r.trials, 2)
           THEN {"proposals have the covariance set for their chain"} ELSE {})

RECURSIVE First(_, _)
Sum(f, lo, hi) == ISum(SubSeq(f, lo, hi))
InLimits(r, c, gi) == LET w == IF r.W > gi THEN gi ELSE r.W
                      IN \A t \in (gi - r.D + 1)..gi :
     LET lo == IF t > w THEN t - w + 1 ELSE 1
         n == t - lo + 1
         s == Sum(r.acc[c], lo, t)
     IN r.den * s > r.low * n /\ r.den * s < r.high * n
Spread(f) == Len(f) * ISum([k \in 1..Len(f) |-> f[k] * f[k]]) - ISum(f) * ISum(f)
Mixed(r, gi) ==
  LET m == Len(r.x)
      n == r.D
      blk(c) == SubSeq(r.x[c], gi - n + 1, gi)
      V == ISum([c \in 1..m |-> Spread(blk(c))])
      D == Spread([c \in 1..m |-> ISum(blk(c))])
  IN 100 * (n - 1) * (m - 1) * V + 100 * (n - 1) * D < 121 * n * (m - 1) * V
Converged(r, gi) == /\ gi >= r.D /\ Len(r.x) >= 2
                    /\ \A c \in 1..Len(r.x) : InLimits(r, c, gi)
                    /\ Mixed(r, gi)
First(r, gi) == IF gi > r.B THEN r.B ELSE IF Converged(r, gi) THEN gi ELSE First(r, gi + r.I)
Used(r) == First(r, r.I)
Stop(r) ==
  (IF r.used # Used(r) THEN {"burn-in ends at the first converged block, else at its full length"} ELSE {})
  \cup (IF r.recorded # 1 + r.used + (r.N - r.B) THEN {"every record is of a step that was run"} ELSE {})
  \cup (IF r.returned # r.N - r.B THEN {"an early stop keeps the number of retained samples"} ELSE {})
  \cup (IF r.late # 0 THEN {"parameters stay fixed after the burn-in"} ELSE {})
  \cup (IF \E c \in 1..Len(r.calls) : r.calls[c] # r.recorded - 1 THEN {"one proposal per chain and recorded step"} ELSE {})

TInit == h \in 1..Len(Traces) /\ i = 0
TNext == i < Len(Traces[h]) /\ i' = i + 1 /\ UNCHANGED h
Failures == IF i = 0 THEN {}
            ELSE IF R.kind = "step" THEN Step(R) ELSE IF R.kind = "freq" THEN Freq(R) ELSE IF R.kind = "law" THEN Law(R) ELSE Stop(R)
Verdict == Failures # {} => PrintT(ToJson([trace |-> h, step |-> i, failed |-> Failures]))
=============================================================================
