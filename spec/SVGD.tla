-------------------------------- MODULE SVGD --------------------------------
(***************************************************************************)
(* One update of a set of interacting particles, and the schedule of a     *)
(* whole run.                                                              *)
(*                                                                         *)
(* Log-density  b.x - (a/2)|x|^2  on integer positions, so the score of    *)
(* particle j is  b - a x_j.  The bandwidth is 1/(k ln 2): the kernel of   *)
(* two particles at squared distance s is 2^(-k s).  The velocity of i is  *)
(*   ( sum_j K_ij score_j / T  +  2 k ln2 sum_j K_ij (x_i - x_j) ) / live  *)
(* over live particles j; it is zero for a dead i.  Both sums are kept as  *)
(* integers over the common denominator 2^Cap.                             *)
(* Particles are first brought into the box; those at `dead` positions     *)
(* have no density.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Sampled,      \* number of random configurations
          Counts, Dims, Lo, Hi, Cap

VARIABLES x, dim, a, b, k, kmin, box, dead, stage, plan
vars == <<x, dim, a, b, k, kmin, box, dead, stage, plan>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Grid == (0 - Lo)..Hi
Clip(v, l, h) == IF v < l THEN l ELSE IF v > h THEN h ELSE v
In(p) == IF box = <<>> THEN p ELSE [d \in 1..dim |-> Clip(p[d], box[1], box[2])]
Put(ps) == [i \in 1..Len(ps) |-> In(ps[i])]
Sq(p, q) == ISum([d \in 1..dim |-> (p[d] - q[d]) * (p[d] - q[d])])
Live(p) == p \notin dead
KEff == IF kmin # 0 /\ kmin < k THEN kmin ELSE k       (* the smallest bandwidth is the largest k *)
W(p, q) == IF Live(p) /\ Live(q) /\ KEff * Sq(p, q) <= Cap THEN Pow2(Cap - KEff * Sq(p, q)) ELSE 0
Pull(ps, i, d) == ISum([j \in 1..Len(ps) |-> W(ps[i], ps[j]) * (b[d] - a * ps[j][d])])
Push(ps, i, d) == ISum([j \in 1..Len(ps) |-> W(ps[i], ps[j]) * (ps[i][d] - ps[j][d])])
Alive(ps) == Cardinality({i \in 1..Len(ps) : Live(ps[i])})
Far(ps) == \E i, j \in 1..Len(ps) : KEff * Sq(ps[i], ps[j]) > Cap

(* median of the positive squared distances of all ordered pairs; doubled *)
Pairs(ps) == {pr \in (1..Len(ps)) \X (1..Len(ps)) : Sq(ps[pr[1]], ps[pr[2]]) > 0}
Below(ps, s) == Cardinality({pr \in Pairs(ps) : Sq(ps[pr[1]], ps[pr[2]]) <= s})
Rank(ps, r) == CHOOSE s \in {Sq(ps[pr[1]], ps[pr[2]]) : pr \in Pairs(ps)} :
                  Below(ps, s) >= r /\ \A u \in {Sq(ps[pr[1]], ps[pr[2]]) : pr \in Pairs(ps)} : u < s => Below(ps, u) < r
Median2(ps) == LET m == Cardinality(Pairs(ps)) IN IF m = 0 THEN 0 ELSE Rank(ps, m \div 2) + Rank(ps, m \div 2 + 1)

Init == /\ x = <<>> /\ dim = 0 /\ a = 0 /\ b = <<>> /\ k = 1 /\ kmin = 0 /\ box = <<>> /\ dead = {}
        /\ stage = "new" /\ plan = <<>>
OneOf(S) == {RandomElement(S)}
Configure ==
  /\ stage = "new" /\ stage' = "set" /\ plan' = <<>>
  /\ \E s \in 1..Sampled : \E d \in OneOf(Dims) : \E n \in OneOf(Counts) :
       /\ dim' = d
       /\ \E xs \in {TLCEval([i \in 1..n |-> [e \in 1..d |-> RandomElement(Grid)]])} : x' = xs
       /\ \E dd \in {TLCEval({[e \in 1..d |-> RandomElement(Grid)] : i \in 1..RandomElement(0..2)})} : dead' = dd
       /\ \E bb \in {TLCEval([e \in 1..d |-> RandomElement(0..2) - 1])} : b' = bb
  /\ \E v \in OneOf(0..2) : a' = v
  /\ \E v \in OneOf({1, 1, 2}) : k' = v
  /\ \E v \in OneOf(0..2) : kmin' = v
  /\ \E v \in OneOf({<<>>, <<0 - 1, 1>>, <<0, 1>>, <<0 - Lo, Hi>>}) : box' = v
(* temperature of every step of a run: rational (linear) or exponent of two (geometric) *)
Schedule ==
  /\ stage = "new" /\ stage' = "plan" /\ UNCHANGED <<x, dim, a, b, k, kmin, box, dead>>
  /\ \E n \in 0..5, t0 \in 0..3, t1 \in 0..3, kind \in {"linear", "geometric"} :
       plan' = <<kind, t0, t1, [s \in 1..n |->
                   IF n = 1 THEN QI(IF kind = "linear" THEN Pow2(t1) ELSE t1)
                   ELSE LET u == Q(s - 1, n - 1)
                            f == QI(IF kind = "linear" THEN Pow2(t0) ELSE t0)
                            g == QI(IF kind = "linear" THEN Pow2(t1) ELSE t1)
                        IN QAdd(f, QMul(u, QSub(g, f)))]>>
Next == Configure \/ Schedule

(******************************* properties ********************************)
Ready == stage = "set"
P == Put(x)
(* forces between particles cancel *)
Balanced == Ready => \A d \in 1..dim : ISum([i \in 1..Len(x) |-> Push(P, i, d)]) = 0
(* swapping two particles swaps their velocities *)
Swap(ps, i, j) == [ps EXCEPT ![i] = ps[j], ![j] = ps[i]]
Symmetric == Ready => \A i, j \in 1..Len(x), d \in 1..dim :
               LET s == Swap(P, i, j) IN Pull(s, i, d) = Pull(P, j, d) /\ Push(s, i, d) = Push(P, j, d)
(* dead particles can be taken away *)
Inert == Ready => LET on == SelectSeq(P, LAMBDA p : Live(p)) IN
           \A i \in 1..Len(x) : Live(P[i]) => \E j \in 1..Len(on) : on[j] = P[i] /\
              \A d \in 1..dim : Pull(on, j, d) = Pull(P, i, d) /\ Push(on, j, d) = Push(P, i, d)
(* alone, a particle climbs its own gradient *)
Lonely == Ready => \A i \in 1..Len(x) : Live(P[i]) /\ Alive(P) = 1 =>
              \A d \in 1..dim : Pull(P, i, d) = Pow2(Cap) * (b[d] - a * P[i][d]) /\ Push(P, i, d) = 0
(* coincident particles stay together *)
Together == Ready => \A i, j \in 1..Len(x) : P[i] = P[j] => \A d \in 1..dim : Pull(P, i, d) = Pull(P, j, d) /\ Push(P, i, d) = Push(P, j, d)
Boxed == Ready /\ box # <<>> => \A i \in 1..Len(x), d \in 1..dim : P[i][d] >= box[1] /\ P[i][d] <= box[2]
Ends == stage = "plan" /\ Len(plan[4]) > 0 =>
          LET v(t) == QI(IF plan[1] = "linear" THEN Pow2(t) ELSE t)
          IN plan[4][Len(plan[4])] = v(plan[3]) /\ (Len(plan[4]) > 1 => plan[4][1] = v(plan[2]))
Emit == /\ Ready /\ ~Far(P) =>
             PrintT(ToJson([kind |-> "step", x |-> x, at |-> P, dim |-> dim, a |-> a, b |-> b, k |-> k, kmin |-> kmin, keff |-> KEff,
                box |-> box, dead |-> dead, cap |-> Cap, live |-> [i \in 1..Len(x) |-> Live(P[i])], med2 |-> Median2(P),
                pull |-> [i \in 1..Len(x) |-> [d \in 1..dim |-> Pull(P, i, d)]],
                push |-> [i \in 1..Len(x) |-> [d \in 1..dim |-> Push(P, i, d)]]]))
        /\ stage = "plan" => PrintT(ToJson([kind |-> "plan", schedule |-> plan[1], t0 |-> plan[2], t1 |-> plan[3], temps |-> plan[4]]))
=============================================================================
