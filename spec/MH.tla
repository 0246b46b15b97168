--------------------------------- MODULE MH ---------------------------------
(***************************************************************************)
(* Several Metropolis-Hastings chains with stated proposals.               *)
(*                                                                         *)
(* A position is an integer; its log-target is a level, or "ninf" (minus   *)
(* infinity), "nan" or "err" (the target fails).  Proposals are of a kind  *)
(* for which the outcome does not depend on the uniform draw: at or above  *)
(* the current level (accepted), a thousand below (rejected), or excluded  *)
(* (rejected).  Adaptation: every Interval steps of the burn-in, from the  *)
(* acceptance rates and the covariance of the states of that block; after  *)
(* the burn-in the parameters are frozen, or adapted on from there.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS ChainsSet, Totals, Intervals, Widths, Kinds, Starts, Pools, Sampled

VARIABLES cfg, t, xs, lts, acc, props, ended
vars == <<cfg, t, xs, lts, acc, props, ended>>

Ninf == -100000
Pos(c, k) == 10 * c + k          (* the position proposed to chain c at step k *)
Level(cur, k) ==
  CASE k = "up" -> IF cur = Ninf THEN 0 ELSE cur + 1
    [] k = "same" -> cur
    [] k = "drop" -> IF cur = Ninf THEN Ninf ELSE cur - 1000
    [] OTHER -> Ninf
(* from an excluded start the walk accepts whatever is not excluded *)
Accepts(cur, k) == k \in {"up", "same"} /\ (k = "same" => cur # Ninf)

Configs == {q \in [n : ChainsSet, N : Totals, B : 0..12, I : Intervals, W : Widths, freeze : BOOLEAN,
                   discard : BOOLEAN, pool : Pools] : q.B <= q.N /\ q.n % q.pool = 0}

Init == t = 0 /\ xs = <<>> /\ lts = <<>> /\ acc = <<>> /\ props = <<>> /\ cfg = <<>> /\ ended = FALSE
Config ==
  /\ cfg = <<>> /\ \E q \in IF Sampled THEN {RandomElement(Configs)} ELSE Configs : cfg' = q
  /\ UNCHANGED <<t, xs, lts, acc, props, ended>>
Begin ==
  /\ cfg # <<>> /\ xs = <<>>
  /\ \E s \in [1..cfg.n -> Starts] :
       /\ xs' = [c \in 1..cfg.n |-> <<Pos(c, 0)>>]
       /\ lts' = [c \in 1..cfg.n |-> <<IF s[c] = "dead" THEN Ninf ELSE 0>>]
       /\ acc' = [c \in 1..cfg.n |-> <<1>>]
       /\ props' = [c \in 1..cfg.n |-> <<>>]
  /\ UNCHANGED <<cfg, t, ended>>
Step ==
  /\ xs # <<>> /\ t < cfg.N /\ t' = t + 1 /\ UNCHANGED <<cfg, ended>>
  /\ \E k \in IF Sampled THEN {TLCEval([c \in 1..cfg.n |-> RandomElement(Kinds)])} ELSE [1..cfg.n -> Kinds] :
       LET y(c) == Pos(c, t + 1)
           cur(c) == lts[c][t + 1]
           a(c) == Accepts(cur(c), k[c])
       IN /\ props' = [c \in 1..cfg.n |-> Append(props[c], [kind |-> k[c], lt |-> Level(cur(c), k[c])])]
          /\ xs' = [c \in 1..cfg.n |-> Append(xs[c], IF a(c) THEN y(c) ELSE xs[c][t + 1])]
          /\ lts' = [c \in 1..cfg.n |-> Append(lts[c], IF a(c) THEN Level(cur(c), k[c]) ELSE cur(c))]
          /\ acc' = [c \in 1..cfg.n |-> Append(acc[c], IF a(c) THEN 1 ELSE 0)]
Stop == xs # <<>> /\ t = cfg.N /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<cfg, t, xs, lts, acc, props>>
Next == Config \/ Begin \/ Step \/ Stop

(******************************* adaptation ********************************)
(* block ends: every I steps of the burn-in; then every I steps after it    *)
BurnEnds == {e \in 1..cfg.N : e <= cfg.B /\ e % cfg.I = 0}
LateEnds == IF cfg.freeze THEN {} ELSE {e \in 1..cfg.N : e > cfg.B /\ (e - cfg.B) % cfg.I = 0}
Ends == BurnEnds \cup LateEnds
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Second(x) == (x * x) % 5         (* the second coordinate of a position *)
Rate(c, e) == Q(ISum(SubSeq(acc[c], e - cfg.I + 2, e + 1)), cfg.I)
RECURSIVE Pooled(_, _, _)
Pooled(c, d, e) == SubSeq(xs[c], e - cfg.I + 2, e + 1) \o IF c < d THEN Pooled(c + 1, d, e) ELSE <<>>
CovOf(f) ==
  LET n == Len(f)
      g == [i \in 1..n |-> Second(f[i])]
      p(u, v) == Q(n * ISum([i \in 1..n |-> u[i] * v[i]]) - ISum(u) * ISum(v), n * (n - 1))
  IN << <<p(f, f), p(f, g)>>, <<p(g, f), p(g, g)>> >>
Group(c) == (c - 1) \div cfg.pool
Adapt(e) == [at |-> e, late |-> e > cfg.B,
             rates |-> [c \in 1..cfg.n |-> Rate(c, e)],
             covs |-> [c \in 1..cfg.n |-> IF cfg.I * cfg.pool < 2 THEN << >>
                        ELSE CovOf(Pooled(Group(c) * cfg.pool + 1, (Group(c) + 1) * cfg.pool, e))]]

(********************************* summaries *******************************)
Window == LET w == IF cfg.W < 1 THEN 1 ELSE cfg.W IN IF w > cfg.N THEN cfg.N ELSE w
Sliding(c, i) ==                 (* i = 1..N: states 0..N-1 *)
  LET lo == IF i > Window THEN i - Window + 1 ELSE 1
  IN Q(ISum(SubSeq(acc[c], lo, i)), i - lo + 1)
Returned(c) == SubSeq(xs[c], IF cfg.discard THEN cfg.B + 1 ELSE 1, cfg.N)

(* potential scale reduction over states B..N-1, first coordinate: its square *)
Block(c) == SubSeq(xs[c], cfg.B + 1, cfg.N)
Spread(f) == Len(f) * ISum([i \in 1..Len(f) |-> f[i] * f[i]]) - ISum(f) * ISum(f)
Rhat2 ==
  LET n == cfg.N - cfg.B
      m == cfg.n
      V == ISum([c \in 1..m |-> Spread(Block(c))])
      D == Spread([c \in 1..m |-> ISum(Block(c))])
  IN IF m < 2 \/ n < 2 \/ V = 0 THEN <<0, 1>>
     ELSE QDiv(QAdd(Q(V, m * n * n), Q(D, n * n * m * (m - 1))), Q(V, m * n * (n - 1)))
(* largest gap between the empirical distributions of two blocks of equal length *)
Below(f, v) == Cardinality({i \in 1..Len(f) : f[i] <= v})
Gap(f, g) == LET S == {f[i] : i \in 1..Len(f)} \cup {g[i] : i \in 1..Len(g)}
                 d == {RAbs(Below(f, v) - Below(g, v)) : v \in S}
             IN Q(CHOOSE x \in d : \A y \in d : y <= x, Len(f))
(* the last nb blocks of length s of every chain, in order *)
Blocks(nb, s) == [k \in 1..(nb * cfg.n) |->
   LET c == (k - 1) \div nb + 1
       b == (k - 1) % nb
       from == cfg.N + 1 - nb * s + b * s
   IN SubSeq(xs[c], from + 1, from + s)]
Gaps(nb, s) == [i \in 1..(nb * cfg.n) |-> [j \in 1..(nb * cfg.n) |-> Gap(Blocks(nb, s)[i], Blocks(nb, s)[j])]]
Whole(c) == SubSeq(xs[c], cfg.B + 1, cfg.N + 1)
RECURSIVE Cat(_, _)
Cat(c, d) == Whole(c) \o IF c < d THEN Cat(c + 1, d) ELSE <<>>
Diag == [rhat2 |-> Rhat2,
         gaps1 |-> Gaps(1, cfg.N), gaps2 |-> Gaps(2, cfg.N \div 2),
         cov |-> IF cfg.N = cfg.B THEN <<>> ELSE [g \in 1..(cfg.n \div cfg.pool) |-> CovOf(Cat((g - 1) * cfg.pool + 1, g * cfg.pool))],
         pooled |-> IF cfg.N = cfg.B THEN <<>> ELSE CovOf(Cat(1, cfg.n))]

(******************************** properties *******************************)
Law == \A c \in 1..Len(xs) : \A i \in 1..t :
  LET p == props[c][i] cur == lts[c][i]
  IN /\ acc[c][i + 1] = 1 => xs[c][i + 1] = Pos(c, i) /\ lts[c][i + 1] = p.lt /\ p.kind \notin {"ninf", "nan", "err"}
     /\ acc[c][i + 1] = 0 => xs[c][i + 1] = xs[c][i] /\ lts[c][i + 1] = cur
     /\ (p.kind \in {"up", "same"} /\ cur # Ninf) => acc[c][i + 1] = 1
(* a chain is the walk of its own proposals alone *)
RECURSIVE Walk(_, _)
Walk(c, i) == IF i = 0 THEN lts[c][1]
              ELSE LET w == Walk(c, i - 1) IN IF Accepts(w, props[c][i].kind) THEN Level(w, props[c][i].kind) ELSE w
Independent == \A c \in 1..Len(xs) : lts[c][t + 1] = Walk(c, t)
Never_down == \A c \in 1..Len(xs) : \A i \in 1..t : lts[c][i] <= lts[c][i + 1]
Frozen == ended /\ cfg.freeze => \A e \in Ends : e <= cfg.B
Retained == ended /\ cfg.discard => \A c \in 1..cfg.n : Len(Returned(c)) = cfg.N - cfg.B

Emit == ended => PrintT(ToJson([cfg |-> cfg, xs |-> xs, lts |-> lts, acc |-> acc, props |-> props,
   adapt |-> [i \in 1..Cardinality(Ends) |-> Adapt(SortedSeq(Ends)[i])],
   rates |-> [c \in 1..cfg.n |-> [i \in 1..cfg.N |-> Sliding(c, i)]],
   diag |-> IF cfg.N < 2 THEN <<>> ELSE Diag,
   out |-> [c \in 1..cfg.n |-> Returned(c)]]))
=============================================================================
