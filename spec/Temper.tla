------------------------------- MODULE Temper -------------------------------
(***************************************************************************)
(* Adaptive tempering of weighted particles.                               *)
(*                                                                         *)
(* The target with parameter b gives particle i the density 2^(c_i * b),   *)
(* c_i <= 0.  From b = 0 the next parameter is the target if that keeps    *)
(* the effective sample size (or mean survival) asked for; else it is      *)
(* where the size asked for is met.  On the grid of integers: the last     *)
(* one meeting it, or one step on when none does.  After a stage the       *)
(* particles are fresh (any exponents).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS Sizes, Exps, Ends, Needs    \* Needs: required ratio in eighths

VARIABLES c, end, need, rule, cur, seq, drawn
vars == <<c, end, need, rule, cur, seq, drawn>>

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Wt(f, b) == [i \in 1..Len(f) |-> Q(1, Pow2(f[i] * b))]       (* c_i = -f[i] *)
Ess(f, b) == LET v == Wt(f, b) s == QSum(v)
             IN QDiv(QDiv(QMul(s, s), QSum([i \in 1..Len(f) |-> QMul(v[i], v[i])])), QI(Len(f)))
Surv(f, b) == QDiv(QSum(Wt(f, b)), QI(Len(f)))
Score(r, f, b) == IF r = "ess" THEN Ess(f, b) ELSE Surv(f, b)
Meets(r, f, b, q) == IF r = "ess" THEN QLt(Q(q, 8), Ess(f, b)) ELSE QLe(Q(q, 8), Surv(f, b))

Init == /\ c = <<>> /\ end = 0 /\ need = 0 /\ rule = "" /\ cur = 0 /\ seq = <<0>> /\ drawn = FALSE
Begin == /\ end = 0 /\ end' \in Ends /\ need' \in Needs /\ rule' \in {"ess", "p0"}
         /\ UNCHANGED <<c, cur, seq, drawn>>
Draw == /\ end # 0 /\ ~drawn /\ cur < end /\ drawn' = TRUE
        /\ \E n \in Sizes : c' \in {f \in [1..n -> Exps] : \A i \in 1..(n - 1) : f[i] <= f[i + 1]}
        /\ UNCHANGED <<end, need, rule, cur, seq>>
Ahead == end - cur
Move == /\ drawn /\ drawn' = FALSE /\ UNCHANGED <<c, end, need, rule>>
        /\ LET good == {b \in 1..Ahead : Meets(rule, c, b, need)}
               b == IF Ahead \in good THEN Ahead
                    ELSE IF good = {} THEN 1 ELSE CHOOSE x \in good : \A y \in good : y <= x
           IN cur' = cur + b /\ seq' = Append(seq, cur + b)
Next == Begin \/ Draw \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************* properties ********************************)
Increasing == \A i \in 1..(Len(seq) - 1) : seq[i] < seq[i + 1]
Within == end # 0 => cur <= end
Decreasing == drawn => \A b \in 1..Ahead : QLe(Score(rule, c, b), Score(rule, c, b - 1))
Arrives == <>(end # 0 /\ cur = end)
First == cur = 0      (* only the first choice of a run *)
(* one choice: scores on the grid, and whether the target is met at once *)
Emit == drawn /\ cur = 0 => PrintT(ToJson([c |-> c, end |-> end, need |-> need, rule |-> rule,
   score |-> [b \in 1..(end + 1) |-> Score(rule, c, b - 1)], at_once |-> Meets(rule, c, end, need)]))
=============================================================================
