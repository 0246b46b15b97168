------------------------------- MODULE Priors -------------------------------
(***************************************************************************)
(* Log-priors on covariance parameters, exactly.                           *)
(*                                                                         *)
(* A parameter vector is <<log variance, minus log range, ...>>.  All      *)
(* numbers are rationals.  The power-law prior is piecewise linear and is  *)
(* given by its value.  The Gaussian prior is given by its deviation from  *)
(* the centre, the range prior by the shift s above the minimum, the       *)
(* weight a of -log s and the slope b of s in each coordinate (or          *)
(* "infinite"), so that the driver has to evaluate one logarithm only.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Dims, Grid, Mode   (* Grid: half units from -Grid to Grid *)

VARIABLES c
Half(i) == Q(i, 2)
G == {Half(i) : i \in (0 - Grid)..Grid}
Pos(a) == IF QLt(QZero, a) THEN a ELSE QZero

(* ---- power laws with soft cut-offs ---- *)
PowerLaw(p, s) ==
  LET lv == QMul(QNeg(s.lv), p[1])
      over == Pos(QSub(p[1], s.ch))
      len(k) == QAdd(QMul(s.ll, p[k]),
                     QMul(s.pf, QAdd(Pos(QSub(s.lo, p[k])), Pos(QSub(p[k], s.hi)))))
  IN QSub(QSub(lv, QMul(s.pf, over)), QSum([k \in 1..(Len(p) - 1) |-> len(k + 1)]))

Settings == {[lv |-> QI(lv), ch |-> QI(ch), ll |-> ll, lo |-> Q(-3, 2), hi |-> Q(hi, 2), pf |-> QI(pf)] :
             lv \in {0, 1, 2}, ch \in {0, 1}, ll \in {QZero, Q(3, 2)}, hi \in {1, 2}, pf \in {0, 10}}

(* ---- range barrier ---- *)
Barrier(p, lo, mid, al) ==
  [k \in 1..(Len(p) - 1) |->
     LET s == QSub(QNeg(p[k + 1]), lo[k])
     IN IF QLe(s, QZero) THEN [inf |-> TRUE, s |-> QZero, a |-> QZero, b |-> QZero]
        ELSE [inf |-> FALSE, s |-> s, a |-> QMul(al, QSub(mid[k], lo[k])), b |-> al]]

Vecs(S, n) == [1..n -> S]
Init == c = [lvl |-> 0]
(* first the parameter vector, then everything else (keeps all workers busy) *)
Rest(p) ==
  LET d == Len(p) - 1
      los == IF d = 1 THEN {QI(-1), QZero, Q(1, 2)} ELSE {QI(-1), Q(1, 2)}
  IN IF Mode = "power" THEN {[lvl |-> 2, p |-> p, s |-> s] : s \in Settings}
     ELSE {[lvl |-> 2, p |-> p, c0 |-> c0, lo |-> lo, mid |-> [k \in 1..d |-> QAdd(lo[k], w[k])],
            al |-> al] :
            c0 \in {Q(-1, 2), QI(1)}, lo \in Vecs(los, d), w \in Vecs({Q(1, 4), QI(2)}, d),
            al \in {Q(1, 4), QI(3)}}
Next == \/ c.lvl = 0 /\ \E d \in Dims : \E p \in Vecs(G, d + 1) : c' = [lvl |-> 1, p |-> p]
        \/ c.lvl = 1 /\ c' \in Rest(c.p)

(* ---- theorems ---- *)
Shift(p, k, t) == [p EXCEPT ![k] = QAdd(@, t)]
PowerConcave == (c.lvl = 2 /\ Mode = "power") =>
  \A k \in 1..Len(c.p) :
    QLe(QAdd(PowerLaw(Shift(c.p, k, QI(1)), c.s), PowerLaw(Shift(c.p, k, QI(-1)), c.s)),
        QMul(QI(2), PowerLaw(c.p, c.s)))
(* cut-offs only lower the prior *)
PowerPenalty == (c.lvl = 2 /\ Mode = "power") =>
  QLe(PowerLaw(c.p, c.s), PowerLaw(c.p, [c.s EXCEPT !.pf = QZero]))
(* slope of the barrier b - a/s: negative below the centre, positive above, zero at it *)
BarrierCentre == (c.lvl = 2 /\ Mode = "barrier") =>
  LET t == Barrier(c.p, c.lo, c.mid, c.al)
  IN \A k \in 1..Len(t) : ~t[k].inf =>
       LET slope == QSub(t[k].b, QDiv(t[k].a, t[k].s))
           r == QSub(QNeg(c.p[k + 1]), c.mid[k])
       IN /\ (QLt(r, QZero) => QLt(slope, QZero))
          /\ (QLt(QZero, r) => QLt(QZero, slope))
          /\ (r = QZero => slope = QZero)
Emit == c.lvl = 2 => PrintT(ToJson(
  IF Mode = "power" THEN [p |-> c.p, s |-> c.s, value |-> PowerLaw(c.p, c.s)]
  ELSE [p |-> c.p, c0 |-> c.c0, dev |-> QSub(c.p[1], c.c0), lo |-> c.lo, mid |-> c.mid,
        al |-> c.al, barrier |-> Barrier(c.p, c.lo, c.mid, c.al)]))
=============================================================================
