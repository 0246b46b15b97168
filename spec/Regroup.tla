------------------------------ MODULE Regroup ------------------------------
(***************************************************************************)
(* The same data presented differently: observations in any order, targets *)
(* in any order and cut into any number of separate requests, possibly     *)
(* repeated.  The answers are those of the plain presentation.             *)
(***************************************************************************)
EXTENDS KrigingMC
VARIABLES plan

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
RECURSIVE Cuts(_)
Cuts(s) == (* all ways of cutting a sequence into consecutive non-empty groups *)
  IF s = <<>> THEN {<<>>}
  ELSE UNION {{<<SubSeq(s, 1, m)>> \o r : r \in Cuts(SubSeq(s, m + 1, Len(s)))} : m \in 1..Len(s)}
Orders == Perms(N) \cup {[k \in 1..N |-> IF k = N THEN 1 ELSE k]}   \* last one repeats a target
Groupings == UNION {Cuts([k \in 1..N |-> f[k]]) : f \in Orders}
Forms == {"vector", "column"} \X {"backend", "plain"}

Worlds == { << [i \in 1..N |-> 1 + (i % 2)], [c \in Cells |-> IF c[2] = 1 THEN 1 ELSE -1] >>,
            << [i \in 1..N |-> 2], [c \in Cells |-> IF c[1] = N THEN 1 ELSE 0] >> }
Full(c) == (* the plain presentation: all targets at once *)
  LET pr == Predictor(c.w, c.obs, All, c.mode)
      z == Zs(Len(c.obs))
  IN [pr |-> pr, mean |-> [k \in 1..2 |-> MeanAt(c.w, c.obs, z[k], All, c.mode, pr.weights)]]
RInit == /\ plan = <<>>
         /\ \E dw \in Worlds : \E mt \in ModeTrend : \E obs \in ObsSets :
              LET c == Make(dw[1], dw[2], mt, obs) IN
                Good(c) /\ case = TLCEval(c @@ [b |-> Full(c)])
RNext == /\ plan = <<>> /\ UNCHANGED case
         /\ \E f \in Perms(Len(case.obs)) : \E g \in Groupings : \E fm \in Forms :
              plan' = [perm |-> f, groups |-> g, form |-> fm]

PObs == [k \in 1..Len(case.obs) |-> case.obs[plan.perm[k]]]
PZ(k) == [i \in 1..Len(case.obs) |-> Z[k][plan.perm[i]]]
RECURSIVE Join(_)
Join(g) == IF g = <<>> THEN <<>> ELSE Head(g) \o Join(Tail(g))

Base == case.b.pr
BaseMean(k) == case.b.mean[k]
Invisible ==
  plan # <<>> =>
    LET pr(g) == Predictor(case.w, PObs, g, case.mode)
        b == Base
    IN \A gi \in 1..Len(plan.groups) :
         LET g == plan.groups[gi]
             q == pr(g)
         IN /\ \A j \in 1..Len(g) : \A i \in 1..Len(PObs) : q.weights[i][j] = b.weights[plan.perm[i]][g[j]]
            /\ \A i, j \in 1..Len(g) : q.cov[i][j] = b.cov[g[i]][g[j]]
            /\ \A k \in 1..2 : MeanAt(case.w, PObs, PZ(k), g, case.mode, q.weights)
                                 = [j \in 1..Len(g) |-> BaseMean(k)[g[j]]]

REmitCase == (plan = <<>>) =>
  PrintT(ToJson([w |-> case.w, obs |-> case.obs, mode |-> case.mode, trend |-> case.trend, z |-> Z,
     mean |-> [k \in 1..2 |-> BaseMean(k)], cov |-> Base.cov,
     loo |-> IF LooSolvable(case.w, case.obs, case.mode)
             THEN Loo(case.w, case.obs, Z[1], case.mode) ELSE <<>>,
     quad |-> IF Dof(case.w, case.obs, case.mode) > 0 THEN Quad(case.w, case.obs, Z[1], case.mode) ELSE <<>>,
     det |-> IF Dof(case.w, case.obs, case.mode) > 0 THEN DetTerm(case.w, case.obs, case.mode) ELSE <<>>,
     dof |-> Dof(case.w, case.obs, case.mode)]))
REmitPlan == (plan # <<>>) => PrintT(ToJson([obs |-> case.obs, plan |-> plan]))
=============================================================================
