------------------------------ MODULE NumLayer ------------------------------
(***************************************************************************)
(* Meaning of the array operations of the numerical layer.                 *)
(*                                                                         *)
(* An array is a shape and its entries in row-major order.  Everything     *)
(* along an axis is defined fibre by fibre, so the same definitions cover  *)
(* any number of dimensions.  Three families are enumerated: one array,    *)
(* a pair of arrays of the same shape, and a triangular system built so    *)
(* that every solution is an integer.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Exact, Draws, Kind

VARIABLES shape, a, b, done
vars == <<shape, a, b, done>>

RECURSIVE Prod(_, _, _)
Prod(s, i, j) == IF i > j THEN 1 ELSE s[i] * Prod(s, i + 1, j)
Size(s) == Prod(s, 1, Len(s))
Outer(s, x) == Prod(s, 1, x - 1)
Inner(s, x) == Prod(s, x + 1, Len(s))
(* entries along axis x, at outer block o and inner offset i (from zero) *)
Fibre(s, d, x, o, i) == [j \in 1..s[x] |-> d[(o * s[x] + j - 1) * Inner(s, x) + i + 1]]
Fibres(s, d, x) == [k \in 1..(Outer(s, x) * Inner(s, x)) |->
                      Fibre(s, d, x, (k - 1) \div Inner(s, x), (k - 1) % Inner(s, x))]
(* array whose fibres along x are m entries long, entry j of fibre k being F[k][j] *)
Spread(s, x, m, F) ==
  LET I == Inner(s, x)
  IN [p \in 1..(Outer(s, x) * m * I) |->
        F[((p - 1) \div (m * I)) * I + ((p - 1) % I) + 1][(((p - 1) \div I) % m) + 1]]

RECURSIVE Sum(_)
Sum(f) == IF f = <<>> THEN 0 ELSE Head(f) + Sum(Tail(f))
RECURSIVE Times(_)
Times(f) == IF f = <<>> THEN 1 ELSE Head(f) * Times(Tail(f))
Sq(f) == Sum([j \in 1..Len(f) |-> f[j] * f[j]])
Least(f) == CHOOSE v \in {f[j] : j \in 1..Len(f)} : \A j \in 1..Len(f) : v <= f[j]
Most(f) == CHOOSE v \in {f[j] : j \in 1..Len(f)} : \A j \in 1..Len(f) : v >= f[j]
Sorted(f) == SortSeq(f, <)
(* percentile q by linear interpolation, times one hundred *)
Pct(f, q) == LET s == Sorted(f)
                 p == (Len(f) - 1) * q
                 k == p \div 100
             IN 100 * s[k + 1] + (IF k + 2 <= Len(f) THEN (p % 100) * (s[k + 2] - s[k + 1]) ELSE 0)
Map(F, Op(_)) == TLCEval([k \in 1..Len(F) |-> Op(F[k])])
MapSeq(s, x, m, F, Op(_)) == TLCEval(Spread(s, x, m, [k \in 1..Len(F) |-> Op(F[k])]))

Axis(s, d, x) ==
  LET F == TLCEval(Fibres(s, d, x))
      n == s[x]
      V(f) == n * Sq(f) - Sum(f) * Sum(f)
  IN [ sum |-> Map(F, Sum), prod |-> Map(F, Times), min |-> Map(F, Least), max |-> Map(F, Most),
       sq |-> Map(F, Sq), n |-> n, nvar |-> Map(F, V),
       anypos |-> Map(F, LAMBDA f : IF Most(f) > 0 THEN 1 ELSE 0),
       allpos |-> Map(F, LAMBDA f : IF Least(f) > 0 THEN 1 ELSE 0),
       argmin |-> Map(F, LAMBDA f : {j - 1 : j \in {j \in 1..n : f[j] = Least(f)}}),
       argmax |-> Map(F, LAMBDA f : {j - 1 : j \in {j \in 1..n : f[j] = Most(f)}}),
       pct |-> [q \in {"0", "25", "50", "90", "100"} |->
                  Map(F, LAMBDA f : Pct(f, CASE q = "0" -> 0 [] q = "25" -> 25 [] q = "50" -> 50
                                             [] q = "90" -> 90 [] q = "100" -> 100))],
       cumsum |-> MapSeq(s, x, n, F, LAMBDA f : [j \in 1..n |-> Sum(SubSeq(f, 1, j))]),
       sort |-> MapSeq(s, x, n, F, Sorted),
       diff |-> MapSeq(s, x, n - 1, F, LAMBDA f : [j \in 1..(n - 1) |-> f[j + 1] - f[j]]) ]

(* exchange of two axes *)
Digits(s, p) == [x \in 1..Len(s) |-> (p \div Inner(s, x)) % s[x]]
RECURSIVE Place(_, _, _)
Place(s, dg, x) == IF x > Len(s) THEN 0 ELSE dg[x] * Inner(s, x) + Place(s, dg, x + 1)
SwapSeq(t, x, y) == [z \in 1..Len(t) |-> IF z = x THEN t[y] ELSE IF z = y THEN t[x] ELSE t[z]]
Swap(s, d, x, y) == LET s2 == SwapSeq(s, x, y)
                    IN [shape |-> s2,
                        data |-> TLCEval([p \in 1..Size(s) |->
                            d[Place(s, SwapSeq(Digits(s2, p - 1), x, y), 1) + 1]])]
RECURSIVE SetToSorted(_)
SetToSorted(S) == IF S = {} THEN <<>>
                  ELSE LET v == CHOOSE v \in S : \A w \in S : v <= w IN <<v>> \o SetToSorted(S \ {v})

Unary(s, d) ==
  [ kind |-> "unary", shape |-> s, data |-> d,
    axes |-> [x \in 1..Len(s) |-> Axis(s, d, x)],
    swaps |-> {[x |-> x, y |-> y, r |-> Swap(s, d, x, y)] : x, y \in 1..Len(s)},
    unique |-> SetToSorted({d[i] : i \in 1..Len(d)}),
    clip |-> [i \in 1..Len(d) |-> IF d[i] < -1 THEN -1 ELSE IF d[i] > 2 THEN 2 ELSE d[i]],
    cov |-> IF Len(s) # 2 \/ s[2] < 2 THEN <<>>
            ELSE LET R == Fibres(s, d, 2)
                 IN TLCEval([p \in 1..(s[1] * s[1]) |->
                      LET f == R[((p - 1) \div s[1]) + 1]
                          g == R[((p - 1) % s[1]) + 1]
                      IN s[2] * Sum([j \in 1..s[2] |-> f[j] * g[j]]) - Sum(f) * Sum(g)]) ]

(* concatenation and stacking along an axis, products, distances *)
Pair(s, d, e) ==
  LET n == Len(d)
      Rows(m) == [i \in 1..s[1] |-> SubSeq(m, (i - 1) * Prod(s, 2, Len(s)) + 1, i * Prod(s, 2, Len(s)))]
      two == Len(s) = 2
  IN [ kind |-> "pair", shape |-> s, data |-> d, other |-> e,
       maximum |-> [i \in 1..n |-> IF d[i] > e[i] THEN d[i] ELSE e[i]],
       minimum |-> [i \in 1..n |-> IF d[i] < e[i] THEN d[i] ELSE e[i]],
       whr |-> [i \in 1..n |-> IF d[i] > e[i] THEN e[i] ELSE d[i] * 10],
       equal |-> d = e,
       land |-> [i \in 1..n |-> IF d[i] > 0 /\ e[i] > 0 THEN 1 ELSE 0],
       lor |-> [i \in 1..n |-> IF d[i] > 0 \/ e[i] > 0 THEN 1 ELSE 0],
       cat |-> [x \in 1..Len(s) |->
                  LET F == Fibres(s, d, x) G == Fibres(s, e, x)
                  IN TLCEval(Spread(s, x, 2 * s[x], [k \in 1..Len(F) |-> F[k] \o G[k]]))],
       stack |-> [x \in 1..(Len(s) + 1) |->
                  LET blk == Prod(s, x, Len(s))
                  IN TLCEval([p \in 1..(2 * n) |->
                       LET o == (p - 1) \div (2 * blk) r == (p - 1) % (2 * blk)
                       IN IF r < blk THEN d[o * blk + r + 1] ELSE e[o * blk + r - blk + 1]])],
       mul |-> IF ~two THEN <<>>
               ELSE TLCEval([p \in 1..(s[1] * s[1]) |->
                      LET f == Rows(d)[((p - 1) \div s[1]) + 1] g == Rows(e)[((p - 1) % s[1]) + 1]
                      IN Sum([j \in 1..s[2] |-> f[j] * g[j]])]),
       dist2 |-> IF ~two THEN <<>>
                 ELSE TLCEval([p \in 1..(s[1] * s[1]) |->
                      LET f == Rows(d)[((p - 1) \div s[1]) + 1] g == Rows(e)[((p - 1) % s[1]) + 1]
                      IN Sq([j \in 1..s[2] |-> f[j] - g[j]])]),
       self2 |-> IF ~two THEN <<>>
                 ELSE TLCEval([p \in 1..(s[1] * s[1]) |->
                      LET f == Rows(d)[((p - 1) \div s[1]) + 1] g == Rows(d)[((p - 1) % s[1]) + 1]
                      IN Sq([j \in 1..s[2] |-> f[j] - g[j]])]),
       rowd2 |-> IF ~two THEN <<>>
                 ELSE [i \in 1..s[1] |-> Sq([j \in 1..s[2] |-> Rows(d)[i][j] - Rows(e)[i][j]])],
       (* squared coordinates weighted by four to the column number minus one *)
       wdist2 |-> IF ~two THEN <<>>
                 ELSE TLCEval([p \in 1..(s[1] * s[1]) |->
                      LET f == Rows(d)[((p - 1) \div s[1]) + 1] g == Rows(e)[((p - 1) % s[1]) + 1]
                      IN Sum([j \in 1..s[2] |-> (f[j] - g[j]) * (f[j] - g[j]) * (4 ^ (j - 1))])]) ]

(* lower triangular l (n by n), integer solution x (n by m) *)
System(n, m, l, x) ==
  LET L(i, j) == l[(i - 1) * n + j]
      X(i, j) == x[(i - 1) * m + j]
      A(i, j) == Sum([k \in 1..n |-> L(i, k) * L(j, k)])
      MatX(M(_, _)) == TLCEval([p \in 1..(n * m) |->
          Sum([k \in 1..n |-> M(((p - 1) \div m) + 1, k) * X(k, ((p - 1) % m) + 1)])])
      U(i, j) == IF i = j THEN 1 ELSE L(i, j)
  IN [ kind |-> "system", n |-> n, m |-> m, l |-> l, x |-> x,
       a |-> TLCEval([p \in 1..(n * n) |-> A(((p - 1) \div n) + 1, ((p - 1) % n) + 1)]),
       ax |-> MatX(A), lx |-> MatX(L), ltx |-> MatX(LAMBDA i, j : L(j, i)),
       ux |-> MatX(U), utx |-> MatX(LAMBDA i, j : U(j, i)),
       root |-> Times([i \in 1..n |-> L(i, i)]),
       norm2 |-> [j \in 1..m |-> Sq([i \in 1..n |-> X(i, j)])],
       trace |-> Sum([i \in 1..n |-> A(i, i)]) ]

Shapes ==
  IF Kind = "system"
  THEN {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>, <<4, 3>>}
  ELSE {<<1>>, <<2>>, <<3>>, <<5>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<4, 3>>,
        <<1, 2, 1>>, <<2, 2, 2>>, <<2, 3, 2>>, <<3, 1, 2>>}
Vals == {-2, 0, 3}
Rand == -6..9
Lower(n, F(_, _)) == [p \in 1..(n * n) |->
   LET i == ((p - 1) \div n) + 1 j == ((p - 1) % n) + 1 IN IF j > i THEN 0 ELSE F(i, j)]

Init == shape = <<>> /\ a = <<>> /\ b = <<>> /\ done = FALSE
ChooseShape == shape = <<>> /\ \E s \in Shapes, k \in 1..Draws : shape' = s \o <<k>>
               /\ UNCHANGED <<a, b, done>>
S == SubSeq(shape, 1, Len(shape) - 1)
First == shape[Len(shape)] = 1
Fill ==
  /\ shape # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED shape
  /\ CASE Kind = "unary" ->
            /\ b' = <<>>
            /\ IF First /\ Size(S) <= Exact
               THEN \E d \in [1..Size(S) -> Vals] : a' = d
               ELSE \E d \in {TLCEval([i \in 1..Size(S) |-> RandomElement(Rand)])} : a' = d
       [] Kind = "pair" ->
            IF First /\ 2 * Size(S) <= Exact
            THEN \E d, e \in [1..Size(S) -> Vals] : a' = d /\ b' = e
            ELSE \E d \in {TLCEval([i \in 1..Size(S) |-> RandomElement(Rand)])} :
                 \E e \in {TLCEval([i \in 1..Size(S) |-> RandomElement(Rand)])} : a' = d /\ b' = e
       [] Kind = "system" ->
            \E d \in {TLCEval(Lower(S[1], LAMBDA i, j : IF i = j THEN RandomElement(1..3)
                                                       ELSE RandomElement(-2..2)))} :
            \E e \in {TLCEval([i \in 1..(S[1] * S[2]) |-> RandomElement(-3..3)])} :
               a' = d /\ b' = e
Next == ChooseShape \/ Fill

Case == CASE Kind = "unary" -> Unary(S, a)
          [] Kind = "pair" -> Pair(S, a, b)
          [] Kind = "system" -> System(S[1], S[2], a, b)
(* sanity of the definitions themselves *)
Consistent == done /\ Kind = "unary" =>
  LET c == Unary(S, a)
  IN /\ \A x \in 1..Len(S) : Sum(c.axes[x].sum) = Sum(a)
     /\ \A x \in 1..Len(S) : \A k \in 1..Len(c.axes[x].nvar) : c.axes[x].nvar[k] >= 0
     /\ \A w \in c.swaps : Swap(w.r.shape, w.r.data, w.x, w.y) = [shape |-> S, data |-> [i \in 1..Len(a) |-> a[i]]]
Emit == done => PrintT(ToJson(Case))
=============================================================================
