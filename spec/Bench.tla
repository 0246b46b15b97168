-------------------------------- MODULE Bench -------------------------------
(***************************************************************************)
(* The benchmark functions, as published.  A batch of points grows row by  *)
(* row, may be reordered and may repeat rows; the response of a batch is   *)
(* the response of its rows, so that these transitions only add, reorder   *)
(* and repeat responses.  A response is an expression over the rational    *)
(* coordinates (evaluated in floating point by the harness).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat
CONSTANTS Funs, Draws, Depth
VARIABLES f, batch, picks, lvl
vars == <<f, batch, picks, lvl>>

N(n) == <<"q", <<n, 1>>>>
F(n, d) == <<"q", Q(n, d)>>
X(r, j) == <<"q", r[j]>>
Plus(s) == <<"sum", s>>
Times(s) == <<"prod", s>>
Neg(a) == Times(<<N(-1), a>>)
Sub(a, b) == Plus(<<a, Neg(b)>>)
Over(a, b) == <<"div", a, b>>
Sq(a) == Times(<<a, a>>)
Fn(n, a) == <<n, a>>
Pi == <<"pi">>

Alpha == <<F(1, 1), F(6, 5), F(3, 1), F(16, 5)>>
A == << <<F(10,1), F(3,1), F(17,1), F(7,2), F(17,10), F(8,1)>>,
        <<F(1,20), F(10,1), F(17,1), F(1,10), F(8,1), F(14,1)>>,
        <<F(3,1), F(7,2), F(17,10), F(10,1), F(17,1), F(8,1)>>,
        <<F(17,1), F(8,1), F(1,20), F(10,1), F(1,10), F(14,1)>> >>
P == << <<1312, 1696, 5569, 124, 8283, 5886>>,
        <<2329, 4135, 8307, 3736, 1004, 9991>>,
        <<2348, 1451, 3522, 2883, 3047, 6650>>,
        <<4047, 8828, 8732, 5743, 1091, 381>> >>
Bumps(r, d) == Plus([i \in 1..4 |-> Times(<<Alpha[i], Fn("exp", Neg(Plus([j \in 1..d |->
                 Times(<<A[i][j], Sq(Sub(X(r, j), F(P[i][j], 10000)))>>)])))>>)])
Value(g, r) ==
  CASE g = "twobumps" -> Neg(Plus(<<Times(<<F(7, 10), X(r, 1)>>), Fn("sin", Plus(<<Times(<<N(5), X(r, 1)>>), N(1)>>)),
                                    Times(<<F(1, 10), Fn("sin", Times(<<N(10), X(r, 1)>>))>>)>>))
    [] g = "wave" -> Plus(<<Fn("exp", Times(<<F(9, 5), Plus(<<X(r, 1), X(r, 2)>>)>>)), Times(<<N(3), X(r, 2)>>),
                            Times(<<N(6), Sq(X(r, 2))>>), Times(<<N(3), Fn("sin", Times(<<N(4), Pi, X(r, 1)>>))>>)>>)
    [] g = "braninhoo" -> Plus(<<Sq(Plus(<<X(r, 2), Neg(Times(<<Over(F(51, 10), Times(<<N(4), Pi, Pi>>)), Sq(X(r, 1))>>)),
                                          Times(<<Over(N(5), Pi), X(r, 1)>>), N(-6)>>)),
                                 Times(<<N(10), Sub(N(1), Over(N(1), Times(<<N(8), Pi>>))), Fn("cos", X(r, 1))>>), N(10)>>)
    [] g = "hartmann4" -> Over(Sub(F(11, 10), Bumps(r, 4)), F(839, 1000))
    [] g = "hartmann6" -> Neg(Bumps(r, 6))
    [] g = "borehole" -> LET l == Fn("ln", Over(X(r, 2), X(r, 1)))
                         IN Over(Times(<<N(2), Pi, X(r, 3), Sub(X(r, 4), X(r, 6))>>),
                                 Times(<<l, Plus(<<N(1), Over(Times(<<N(2), X(r, 7), X(r, 3)>>), Times(<<l, Sq(X(r, 1)), X(r, 8)>>)),
                                                   Over(X(r, 3), X(r, 5))>>)>>))
    [] g = "detpep8d" -> Plus(<<Times(<<N(4), Sq(Plus(<<X(r, 1), N(-2), Times(<<N(8), X(r, 2)>>), Neg(Times(<<N(8), Sq(X(r, 2))>>))>>))>>),
                                Sq(Sub(N(3), Times(<<N(4), X(r, 2)>>))),
                                Times(<<N(16), Fn("sqrt", Plus(<<X(r, 3), N(1)>>)), Sq(Sub(Times(<<N(2), X(r, 3)>>), N(1)))>>),
                                Plus([i \in 1..5 |-> Times(<<N(i + 3), Fn("ln", Plus(<<N(1), Plus([j \in 1..(i + 1) |-> X(r, j + 2)])>>))>>)])>>)
    [] g = "ishigami" -> Plus(<<Fn("sin", X(r, 1)), Times(<<N(5), Sq(Fn("sin", X(r, 2)))>>),
                                Times(<<F(1, 10), Sq(Sq(X(r, 3))), Fn("sin", X(r, 1))>>)>>)

(* usual domains, in steps *)
Box(g) ==
  CASE g = "twobumps" -> << <<-10, 10, 10>> >>
    [] g = "wave" -> << <<-10, 10, 10>>, <<-10, 10, 10>> >>
    [] g = "braninhoo" -> << <<-20, 40, 4>>, <<0, 60, 4>> >>
    [] g = "hartmann4" -> [j \in 1..4 |-> <<0, 20, 20>>]
    [] g = "hartmann6" -> [j \in 1..6 |-> <<0, 20, 20>>]
    [] g = "borehole" -> << <<5, 15, 100>>, <<100, 50000, 1>>, <<63070, 115600, 1>>, <<990, 1110, 1>>, <<631, 1160, 10>>,
                            <<700, 820, 1>>, <<1120, 1680, 1>>, <<9855, 12045, 1>> >>
    [] g = "detpep8d" -> [j \in 1..8 |-> <<0, 10, 10>>]
    [] g = "ishigami" -> [j \in 1..3 |-> <<-15, 15, 5>>]
(* anywhere, at the ends and, proportionally, near them *)
Coord(v) == LET c == RandomElement(1..5) s == (v[2] - v[1]) \div 100
            IN CASE c = 1 -> v[1] [] c = 2 -> v[2] [] c = 3 -> v[1] + RandomElement(0..s)
                 [] OTHER -> RandomElement(v[1]..v[2])
(* the two published forms of the wave function agree where both coordinates are equal *)
Row(g) == {TLCEval(LET b == Box(g)
                       r == TLCEval([j \in 1..Len(b) |-> LET v == b[j] IN Q(Coord(v), v[3])])
                   IN IF g = "wave" THEN <<r[1], r[1]>> ELSE r)}

Init == f = "" /\ batch = <<>> /\ picks = <<>> /\ lvl = 0
Choose == lvl = 0 /\ lvl' = 1 /\ \E g \in Funs, k \in 1..Draws : f' = g /\ picks' = <<k>> /\ UNCHANGED batch
Grow == /\ lvl \in 1..Depth /\ lvl' = lvl + 1 /\ UNCHANGED f /\ picks' = Append(picks, "new")
        /\ \E r \in Row(f) : batch' = Append(batch, r)
Repeat == /\ lvl \in 2..Depth /\ lvl' = lvl + 1 /\ UNCHANGED f /\ picks' = Append(picks, "again")
          /\ batch' = Append(batch, batch[1])
Turn == /\ lvl \in 2..Depth /\ Len(batch) > 1 /\ lvl' = lvl + 1 /\ UNCHANGED f /\ picks' = Append(picks, "turn")
        /\ batch' = [i \in 1..Len(batch) |-> batch[Len(batch) + 1 - i]]
Next == Choose \/ Grow \/ Repeat \/ Turn
Inside == \A i \in 1..Len(batch) : LET b == Box(f) IN
            /\ Len(batch[i]) = Len(b)
            /\ \A j \in 1..Len(b) : QLe(Q(b[j][1], b[j][3]), batch[i][j]) /\ QLe(batch[i][j], Q(b[j][2], b[j][3]))
Emit == lvl = Depth + 1 => PrintT(ToJson([f |-> f, rows |-> batch, values |-> [i \in 1..Len(batch) |-> Value(f, batch[i])]]))
=============================================================================
