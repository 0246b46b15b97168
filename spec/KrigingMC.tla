----------------------------- MODULE KrigingMC -----------------------------
(***************************************************************************)
(* Worlds, observation sets and data to feed Kriging: every world built    *)
(* from a small integer Cholesky factor, every observation set, every mean *)
(* model; `What' selects the quantities printed for replay on the code.    *)
(***************************************************************************)
EXTENDS Kriging

CONSTANTS N,        \* points in the world
          Diag, Off, \* entries of the integer factor, offsets shifted by 2
          Shift,    \* subtracted from every covariance: conditionally positive cases
          Modes, Trends, Sizes,
          What      \* "predict", "loo", "lik", "paths"
VARIABLES case

Offs == {v - 2 : v \in Off}
Cells == {c \in (1..N) \X (1..N) : c[2] < c[1]}
Gram(d, o, s) == (* A A' - s, A lower triangular *)
  LET A == TLCEval([i \in 1..N |-> [j \in 1..N |->
             IF i = j THEN d[i] ELSE IF j < i THEN o[<<i, j>>] ELSE 0]])
  IN TLCEval([i \in 1..N |-> [j \in 1..N |-> ISum([k \in 1..N |-> A[i][k] * A[j][k]]) - s]])

Coord == <<0, 1, 3, -1, 2>>
TrendOf(name) ==
  [i \in 1..N |-> CASE name = "const" -> <<1>>
                    [] name = "affine" -> <<1, Coord[i]>>
                    [] name = "slope" -> <<Coord[i] + 2>>
                    [] name = "quad" -> <<1, Coord[i], Coord[i] * Coord[i]>>]
Mu == <<1, -2, 0, 3, 1>>
Zs(n) == << [k \in 1..n |-> <<2, -1, 3, 1, -2>>[k]], [k \in 1..n |-> <<0, 4, 1, -3, 2>>[k]] >>
All == [i \in 1..N |-> i]

World(d, o, s, t) == [g |-> Gram(d, o, s), p |-> TrendOf(t), mu |-> [i \in 1..N |-> Mu[i]]]
Increasing(S) == ISort(CHOOSE q \in [1..Cardinality(S) -> S] : \A x \in S : \E k \in 1..Cardinality(S) : q[k] = x)
ObsSets == {Increasing(S) : S \in {S \in SUBSET (1..N) : Cardinality(S) \in Sizes}}

ModeTrend == {mt \in Modes \X Trends : mt[1] = "linear" \/ mt[2] = (CHOOSE t \in Trends : TRUE)}
Good(c) ==
  /\ (c.mode # "linear" => Shift = 0)
  /\ (Shift # 0 => c.trend \in {"const", "affine", "quad"})
  /\ Solvable(c.w, c.obs, c.mode)
  /\ (c.mode = "linear" => Len(c.obs) >= Len(c.w.p[1]))
  /\ (What = "loo" => LooSolvable(c.w, c.obs, c.mode))
  /\ (What = "lik" => Dof(c.w, c.obs, c.mode) > 0)
Make(d, o, mt, obs) ==
  [w |-> World(d, o, Shift, mt[2]), obs |-> obs, mode |-> mt[1], trend |-> mt[2]]

Init == \E d \in [1..N -> Diag] : \E o \in [Cells -> Offs] :
          case = [mode |-> "none", d |-> d, o |-> o]
Next == /\ case.mode = "none"
        /\ \E mt \in ModeTrend : \E obs \in ObsSets :
             LET c == TLCEval(Make(case.d, case.o, mt, obs)) IN Good(c) /\ case' = c

SimInit == case = [mode |-> "none"]
Shuffle(n, k) == (* k distinct elements of 1..n in random order *)
  TLCEval(LET RECURSIVE go(_, _)
      go(S, m) == IF m = 0 THEN <<>>
                  ELSE LET x == TLCEval(RandomElement(S)) IN <<x>> \o go(S \ {x}, m - 1)
  IN go(1..n, k))
SimNext ==
  \E d \in {TLCEval([i \in 1..N |-> RandomElement(Diag)])} :
  \E o \in {TLCEval([c \in Cells |-> RandomElement(Offs)])} :
  \E mt \in {RandomElement(ModeTrend)} :
  \E n \in {RandomElement(Sizes)} :
  \E S \in {RandomElement({T \in SUBSET (1..N) : Cardinality(T) = n})} :
  \E r \in BOOLEAN :
    LET up == Increasing(S)
        obs == IF r THEN up ELSE [k \in 1..Len(up) |-> up[Len(up) + 1 - k]]
        c == Make(d, o, mt, obs)
    IN case' = IF Good(c) THEN c ELSE [mode |-> "none"]

Live == case.mode # "none"
Pr == TLCEval(Predictor(case.w, case.obs, All, case.mode))
Z == Zs(Len(case.obs))

Theorems ==
  Live =>
    LET pr == Pr IN
    /\ \A k \in 1..2 : Interpolates(case.w, case.obs, Z[k], All, case.mode, pr,
                                    MeanAt(case.w, case.obs, Z[k], All, case.mode, pr.weights))
    /\ Unbiased(case.w, case.obs, All, case.mode, pr)
    /\ Best(case.w, case.obs, All, case.mode, pr)
    /\ Symmetric(pr.cov)
    /\ \A i \in 1..N : QLe(QZero, pr.cov[i][i])

(* adding a combination of trend functions to the data *)
TrendShift(z) == [k \in 1..Len(z) |->
  z[k] + ISum([j \in 1..Len(case.w.p[1]) |-> (3 - 2 * j) * case.w.p[case.obs[k]][j]])]
LikTheorems ==
  (Live /\ What = "lik" /\ case.mode = "linear") =>
    \A k \in 1..2 : Quad(case.w, case.obs, Z[k], case.mode) = Quad(case.w, case.obs, TrendShift(Z[k]), case.mode)

(* conditioning an unconditional zero-mean path s on the data *)
Cond(w, obs, z, ts, mode, s, wa) == (* wa: weights for every point *)
  LET wt == [j \in 1..Len(ts) |-> Col(wa, ts[j])]
      d == VSub(VSub(VecI(z), PriorMean(w, obs, mode)), [k \in 1..Len(obs) |-> QI(s[obs[k]])])
  IN VAdd(VAdd([j \in 1..Len(ts) |-> QI(s[ts[j]])], MV(wt, d)), PriorMean(w, ts, mode))
Sims == << [i \in 1..N |-> <<1, -3, 2, 0, 5>>[i]], [i \in 1..N |-> <<0, 0, 0, 0, 0>>[i]],
           [i \in 1..N |-> <<-2, 1, 4, -1, 3>>[i]] >>
TargetLists == << All, <<N, 1>>, <<2, 2, 1>>, <<1>>, [k \in 1..N |-> N + 1 - k] >>
PathOut == LET wa == Pr.weights IN [t \in 1..Len(TargetLists) |-> [k \in 1..2 |-> [p \in 1..Len(Sims) |->
              Cond(case.w, case.obs, Z[k], TargetLists[t], case.mode, Sims[p], wa)]]]
(* every conditional path passes through the data; with no unconditional   *)
(* variation it is the predictor; it is affine in the path                 *)
PathTheorems ==
  (Live /\ What = "paths") =>
    LET wa == Pr.weights
        c(k, p) == Cond(case.w, case.obs, Z[k], All, case.mode, Sims[p], wa) IN
    \A k \in 1..2 :
      /\ \A p \in 1..Len(Sims) : \A i \in 1..Len(case.obs) : c(k, p)[case.obs[i]] = QI(Z[k][i])
      /\ c(k, 2) = MeanAt(case.w, case.obs, Z[k], All, case.mode, wa)
      /\ LET sum == [i \in 1..N |-> Sims[1][i] + Sims[3][i]]
         IN VAdd(Cond(case.w, case.obs, Z[k], All, case.mode, sum, wa), c(k, 2)) = VAdd(c(k, 1), c(k, 3))

Out ==
  LET base == [w |-> case.w, obs |-> case.obs, mode |-> case.mode, trend |-> case.trend, z |-> Z]
  IN CASE What = "predict" ->
            LET pr == Pr IN base @@ [weights |-> pr.weights, cov |-> pr.cov,
              mean |-> [k \in 1..2 |-> MeanAt(case.w, case.obs, Z[k], All, case.mode, pr.weights)]]
       [] What = "loo" -> base @@ [loo |-> [k \in 1..2 |-> Loo(case.w, case.obs, Z[k], case.mode)]]
       [] What = "lik" -> base @@ [
            quad |-> [k \in 1..2 |-> Quad(case.w, case.obs, Z[k], case.mode)],
            zshift |-> [k \in 1..2 |-> TrendShift(Z[k])],
            det |-> DetTerm(case.w, case.obs, case.mode), dof |-> Dof(case.w, case.obs, case.mode),
            ones |-> IF case.mode = "linear" THEN <<>>
                     ELSE MV(Inv(System(case.w, case.obs, case.mode)).inv, [k \in 1..Len(case.obs) |-> QOne]),
            kinv |-> IF case.mode = "linear" THEN <<>> ELSE Inv(System(case.w, case.obs, case.mode)).inv]
       [] What = "paths" -> base @@ [sims |-> Sims, targets |-> TargetLists, paths |-> PathOut]
Emit == Live => PrintT(ToJson(Out))
=============================================================================
