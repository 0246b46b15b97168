------------------------------ MODULE Kriging ------------------------------
(***************************************************************************)
(* Gaussian-process prediction on a finite set of points, exactly.         *)
(*                                                                         *)
(* A world is N points with an integer covariance table g, trend values p  *)
(* (N x q) and known mean values mu.  Observations are a sequence of       *)
(* distinct points with values z.  Three mean models:                      *)
(*   "zero"    the mean is zero                                            *)
(*   "known"   the mean is mu                                              *)
(*   "linear"  the mean is an unknown combination of the columns of p      *)
(* The predictor is defined by the kriging system, solved over the         *)
(* rationals; the theorems at the end say it is the best linear unbiased   *)
(* predictor, which is what a user of the library relies on.               *)
(***************************************************************************)
EXTENDS LinAlg, FiniteSets, Json

(* ---- the kriging system ---- *)
K(w, a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> QI(w.g[a[i]][b[j]])]])
P(w, a) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(w.p[1]) |-> QI(w.p[a[i]][j])]])
Trend(mode) == mode = "linear"
ZeroBlock(q) == [i \in 1..q |-> [j \in 1..q |-> QZero]]
Block(w, obs) == VCat(HCat(K(w, obs, obs), P(w, obs)), HCat(MT(P(w, obs)), ZeroBlock(Len(w.p[1]))))
System(w, obs, mode) == IF Trend(mode) THEN Block(w, obs) ELSE K(w, obs, obs)
Rhs(w, obs, ts, mode) ==
  IF Trend(mode) THEN VCat(K(w, obs, ts), MT(P(w, ts))) ELSE K(w, obs, ts)

(* everything about predicting the points ts from the observed points;     *)
(* weights and posterior covariance do not involve the observed values     *)
Predictor(w, obs, ts, mode) ==
  LET iv == Inv(System(w, obs, mode))
      rhs == Rhs(w, obs, ts, mode)
      sol == MM(iv.inv, rhs)
      ktt == K(w, ts, ts)
      red == MM(MT(sol), rhs)
  IN [weights |-> SubSeq(sol, 1, Len(obs)),
      cov |-> TLCEval([i \in 1..Len(ts) |-> [j \in 1..Len(ts) |-> QSub(ktt[i][j], red[i][j])]])]
PriorMean(w, ts, mode) == [i \in 1..Len(ts) |-> IF mode = "known" THEN QI(w.mu[ts[i]]) ELSE QZero]
MeanAt(w, obs, z, ts, mode, weights) ==
  LET c == VSub(VecI(z), PriorMean(w, obs, mode))
  IN TLCEval(VAdd(MV(MT(weights), c), PriorMean(w, ts, mode)))

(* which observation sets determine the predictor *)
Solvable(w, obs, mode) == Len(obs) > 0 /\ Regular(System(w, obs, mode))

(* ---- leaving one observation out, literally ---- *)
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
LooSolvable(w, obs, mode) ==
  Len(obs) >= 2 /\ \A k \in 1..Len(obs) : Solvable(w, Drop(obs, k), mode)
Loo(w, obs, z, mode) ==
  [k \in 1..Len(obs) |->
     LET rest == Drop(obs, k)
         pr == Predictor(w, rest, <<obs[k]>>, mode)
         m == MeanAt(w, rest, Drop(z, k), <<obs[k]>>, mode, pr.weights)[1]
     IN [mean |-> m, var |-> pr.cov[1][1], err |-> QSub(QI(z[k]), m)]]

(* ---- likelihood ingredients ---- *)
(* For a trend, contrasts W of an orthonormal basis of the orthogonal      *)
(* complement of the trend give det(W'KW) = |det block| / det(P'P) and     *)
(* (W'z)'(W'KW)^-1 (W'z) = z' M z, M the leading block of the inverse.     *)
Quad(w, obs, z, mode) ==
  LET iv == Inv(System(w, obs, mode)).inv
      m == [i \in 1..Len(obs) |-> SubSeq(iv[i], 1, Len(obs))]
      c == VSub(VecI(z), PriorMean(w, obs, mode))
  IN Dot(c, MV(m, c))
DetTerm(w, obs, mode) ==
  LET d == Inv(System(w, obs, mode)).det
      p == P(w, obs)
  IN IF Trend(mode) THEN QDiv(QAbs(d), Det(MM(MT(p), p))) ELSE d
Dof(w, obs, mode) == IF Trend(mode) THEN Len(obs) - Len(w.p[1]) ELSE Len(obs)

(* ---- theorems of the predictor, checked by TLC on every case ---- *)
At(obs, t) == CHOOSE i \in 1..Len(obs) : obs[i] = t
InRange(obs, t) == \E i \in 1..Len(obs) : obs[i] = t
Interpolates(w, obs, z, ts, mode, pr, mn) ==
  \A j \in 1..Len(ts) : InRange(obs, ts[j]) =>
     /\ mn[j] = QI(z[At(obs, ts[j])])
     /\ \A i \in 1..Len(ts) : pr.cov[i][j] = QZero
Unbiased(w, obs, ts, mode, pr) ==
  Trend(mode) => MM(MT(P(w, obs)), pr.weights) = MT(P(w, ts))
(* mean squared error of predicting ts[j] with weights v, exactly *)
Mse(w, obs, t, v) ==
  QAdd(QSub(QI(w.g[t][t]), QMul(QI(2), Dot(v, Col(K(w, obs, <<t>>), 1)))),
       Dot(v, MV(K(w, obs, obs), v)))
Admissible(w, obs, mode, d) ==
  Trend(mode) => MV(MT(P(w, obs)), d) = [k \in 1..Len(w.p[1]) |-> QZero]
Best(w, obs, ts, mode, pr) ==
  \A j \in 1..Len(ts) :
    LET l == Col(pr.weights, j) IN
    /\ Mse(w, obs, ts[j], l) = pr.cov[j][j]
    /\ \A d \in [1..Len(obs) -> {-1, 0, 1}] :
         Admissible(w, obs, mode, VecI(d)) => QLe(pr.cov[j][j], Mse(w, obs, ts[j], VAdd(l, VecI(d))))
=============================================================================
