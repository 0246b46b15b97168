------------------------------- MODULE Indef -------------------------------
(***************************************************************************)
(* Symmetric integer matrices that are no covariance: some combination of  *)
(* the variables (for a constant trend, some contrast) has negative        *)
(* variance.  A likelihood has no finite value there.                      *)
(***************************************************************************)
EXTENDS LinAlg, Json
CONSTANTS N, Values   \* entries, shifted by 2
VARIABLES m, w

Vals == {v - 2 : v \in Values}
Cells == {c \in (1..N) \X (1..N) : c[2] <= c[1]}
Mat(f) == [i \in 1..N |-> [j \in 1..N |-> IF j <= i THEN f[<<i, j>>] ELSE f[<<j, i>>]]]
Form(a, v) == ISum([i \in 1..N |-> ISum([j \in 1..N |-> a[i][j] * v[i] * v[j]])])
Vecs == [1..N -> -2..2]
NegAny(a) == \E v \in Vecs : Form(a, v) < 0
NegContrast(a) == N > 1 /\ \E v \in Vecs : ISum(v) = 0 /\ Form(a, v) < 0
Init == \E f \in [Cells -> Vals] : m = TLCEval(Mat(f)) /\ w = <<>>
Next == w = <<>> /\ NegAny(m) /\ w' = [plain |-> NegAny(m), trend |-> NegContrast(m)] /\ UNCHANGED m
(* a negative form excludes positive definiteness, contrasts are special forms *)
Theorems == w # <<>> => (~PosDef(MatI(m)) /\ (w.trend => w.plain))
(* a common variance added everywhere leaves contrasts as they are, so no amount of it makes a covariance *)
Lift(a, l) == [i \in 1..N |-> [j \in 1..N |-> a[i][j] + l]]
Lifted == w # <<>> => \A l \in {1, 1000, 1000000} :
  LET b == Lift(m, l) IN NegContrast(b) = w.trend /\ (w.trend => NegAny(b))
Emit == w # <<>> => PrintT(ToJson([g |-> m, trend |-> w.trend]))
=============================================================================
