------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Labelled tables.  A table is a sequence of row labels, a sequence of    *)
(* column labels and a matrix.  Two named tables are edited, selected from *)
(* and concatenated; deriving one from the other copies it.  Row and       *)
(* column labels never repeat inside a table (a request that would repeat  *)
(* one is not made), so a label pair names one cell.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, MaxRows, MaxCols, RowPool, ColPool

VARIABLES tab, start, next, hist
vars == <<tab, start, next, hist>>

Names == {"s", "t"}
Table(r, c, m) == [rows |-> r, cols |-> c, m |-> m]
NR(t) == Len(t.rows)
NC(t) == Len(t.cols)
Pos(s, l) == CHOOSE i \in 1..Len(s) : s[i] = l
Members(s) == {s[i] : i \in 1..Len(s)}
Line(base, n) == [j \in 1..n |-> base + j]

(* the other table: same columns, same columns in another order, same rows in another order *)
Others == {Table(<<"r3">>, <<"c1", "c2">>, <<<<31, 32>>>>), Table(<<"r3">>, <<"c2", "c1">>, <<<<31, 32>>>>),
           Table(<<"r2", "r1">>, <<"c3">>, <<<<31>>, <<41>>>>)}

Init == /\ next = 100 /\ hist = <<>>
        /\ \E r \in {<<"r1">>, <<"r1", "r2">>}, c \in {<<"c1">>, <<"c1", "c2">>}, o \in Others :
             tab = [n \in Names |-> IF n = "s"
                      THEN Table(r, c, [i \in 1..Len(r) |-> Line(10 * i, Len(c))])
                      ELSE o]
        /\ start = tab

Log(r) == hist' = Append(hist, [op |-> r, tab |-> tab'])
Keep == UNCHANGED tab
Tick == next' = next + 10

AppendRow(n, l) ==
  LET t == tab[n] IN
  /\ NR(t) < MaxRows /\ l \notin Members(t.rows) /\ l \notin Members(t.cols)
  /\ tab' = [tab EXCEPT ![n] = Table(Append(t.rows, l), t.cols, Append(t.m, Line(next, NC(t))))]
  /\ Tick /\ Log([op |-> "append_row", on |-> n, label |-> l, values |-> Line(next, NC(t)), ok |-> TRUE])
AppendRowBad(n, l, d) ==
  LET t == tab[n] IN
  /\ NC(t) + d >= 1 /\ l \notin Members(t.rows)
  /\ Keep /\ Tick
  /\ Log([op |-> "append_row", on |-> n, label |-> l, values |-> Line(next, NC(t) + d), ok |-> FALSE])
AppendCol(n, l) ==
  LET t == tab[n] IN
  /\ NC(t) < MaxCols /\ l \notin Members(t.cols) /\ l \notin Members(t.rows)
  /\ tab' = [tab EXCEPT ![n] = Table(t.rows, Append(t.cols, l),
                                     [i \in 1..NR(t) |-> Append(t.m[i], next + i)])]
  /\ Tick /\ Log([op |-> "append_col", on |-> n, label |-> l, values |-> Line(next, NR(t)), ok |-> TRUE])
AppendColBad(n, l, d) ==
  LET t == tab[n] IN
  /\ NR(t) + d >= 1 /\ l \notin Members(t.cols)
  /\ Keep /\ Tick
  /\ Log([op |-> "append_col", on |-> n, label |-> l, values |-> Line(next, NR(t) + d), ok |-> FALSE])

(* put the concatenation of the two tables, in this order, into table w *)
Concat(a, b, w, axis) ==
  LET x == tab[a] y == tab[b]
      ok == IF axis = 0 THEN x.cols = y.cols ELSE x.rows = y.rows
      res == IF axis = 0 THEN Table(x.rows \o y.rows, x.cols, x.m \o y.m)
             ELSE Table(x.rows, x.cols \o y.cols, [i \in 1..NR(x) |-> x.m[i] \o y.m[i]])
  IN /\ ok => /\ NR(res) <= MaxRows /\ NC(res) <= MaxCols
              /\ Cardinality(Members(res.rows)) = NR(res) /\ Cardinality(Members(res.cols)) = NC(res)
     /\ tab' = (IF ok THEN [tab EXCEPT ![w] = res] ELSE tab)
     /\ UNCHANGED next /\ Log([op |-> "concat", a |-> a, b |-> b, into |-> w, axis |-> axis, ok |-> ok])

SetCell(n, r, c) ==
  LET t == tab[n] IN
  /\ r \in Members(t.rows) /\ c \in Members(t.cols)
  /\ tab' = [tab EXCEPT ![n].m[Pos(t.rows, r)][Pos(t.cols, c)] = next]
  /\ Tick /\ Log([op |-> "set_cell", on |-> n, r |-> r, c |-> c, value |-> next, ok |-> TRUE])
SetRow(n, r) ==
  LET t == tab[n] IN
  /\ r \in Members(t.rows)
  /\ tab' = [tab EXCEPT ![n].m[Pos(t.rows, r)] = Line(next, NC(t))]
  /\ Tick /\ Log([op |-> "set_row", on |-> n, r |-> r, values |-> Line(next, NC(t)), ok |-> TRUE])
SetCol(n, c) ==
  LET t == tab[n] IN
  /\ c \in Members(t.cols)
  /\ tab' = [tab EXCEPT ![n].m = [i \in 1..NR(t) |-> [t.m[i] EXCEPT ![Pos(t.cols, c)] = next + i]]]
  /\ Tick /\ Log([op |-> "set_col", on |-> n, c |-> c, values |-> Line(next, NR(t)), ok |-> TRUE])
SetUnknown(n) == Keep /\ Tick /\ Log([op |-> "set_unknown", on |-> n, ok |-> FALSE])

(* overwrite rows i..j and columns k..l (by position, or by label when single) *)
SetBlock(n, i, j, k, l, how) ==
  LET t == tab[n]
      v(p, q) == next + 4 * (p - i) + (q - k)
  IN
  /\ 1 <= i /\ i <= j /\ j <= NR(t) /\ 1 <= k /\ k <= l /\ l <= NC(t)
  /\ how = "rowslice" => i = j
  /\ how = "colslice" => k = l
  /\ tab' = [tab EXCEPT ![n].m = [p \in 1..NR(t) |-> [q \in 1..NC(t) |->
                IF i <= p /\ p <= j /\ k <= q /\ q <= l THEN v(p, q) ELSE t.m[p][q]]]]
  /\ next' = next + 20
  /\ Log([op |-> "set_block", on |-> n, how |-> how, r |-> t.rows[i], c |-> t.cols[k], i |-> i - 1, j |-> j, k |-> k - 1, l |-> l,
          values |-> [p \in 1..(j - i + 1) |-> [q \in 1..(l - k + 1) |-> v(i + p - 1, k + q - 1)]], ok |-> TRUE])

(* select rows i..j and columns k..l (by position, or by label when single) into w *)
Select(n, w, i, j, k, l, how) ==
  LET t == tab[n] IN
  /\ 1 <= i /\ i <= j /\ j <= NR(t) /\ 1 <= k /\ k <= l /\ l <= NC(t)
  /\ how \in {"row", "rowslice"} => i = j
  /\ how \in {"col", "colslice"} => k = l
  /\ how = "row" => k = 1 /\ l = NC(t)
  /\ how = "col" => i = 1 /\ j = NR(t)
  /\ tab' = [tab EXCEPT ![w] = Table(SubSeq(t.rows, i, j), SubSeq(t.cols, k, l),
                                     [p \in 1..(j - i + 1) |-> SubSeq(t.m[i + p - 1], k, l)])]
  /\ UNCHANGED next
  /\ Log([op |-> "select", on |-> n, into |-> w, how |-> how, r |-> t.rows[i], c |-> t.cols[k],
          i |-> i - 1, j |-> j, k |-> k - 1, l |-> l, ok |-> TRUE])

Next ==
  /\ Len(hist) < Depth /\ UNCHANGED start
  /\ \/ \E n \in Names, l \in RowPool : AppendRow(n, l)
     \/ \E n \in Names, l \in ColPool : AppendCol(n, l)
     \/ \E n \in Names, d \in {-1, 1} : AppendRowBad(n, "rx", d) \/ AppendColBad(n, "cx", d)
     \/ \E a, b, w \in Names, axis \in {0, 1} : a # b /\ Concat(a, b, w, axis)
     \/ \E n \in Names : \E r \in Members(tab[n].rows), c \in Members(tab[n].cols) : SetCell(n, r, c)
     \/ \E n \in Names : \E r \in Members(tab[n].rows) : SetRow(n, r)
     \/ \E n \in Names : \E c \in Members(tab[n].cols) : SetCol(n, c)
     \/ \E n \in Names : SetUnknown(n)
     \/ \E n \in Names, i, j \in 1..MaxRows, k, l \in 1..MaxCols, how \in {"both", "rowslice", "colslice"} : SetBlock(n, i, j, k, l, how)
     \/ \E n, w \in Names, i, j \in 1..MaxRows, k, l \in 1..MaxCols,
           how \in {"both", "row", "col", "rowslice", "colslice"} : Select(n, w, i, j, k, l, how)

Shaped == \A n \in Names : /\ Len(tab[n].m) = NR(tab[n])
                           /\ \A i \in 1..NR(tab[n]) : Len(tab[n].m[i]) = NC(tab[n])
                           /\ Cardinality(Members(tab[n].rows)) = NR(tab[n])
(* an edit of one table never reaches the other *)
Independent == [][ \A n \in Names : tab'[n] # tab[n] =>
   LET o == hist'[Len(hist')].op
   IN o.ok /\ n = (IF "into" \in DOMAIN o THEN o.into ELSE o.on) ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson([start |-> start, hist |-> hist]))
=============================================================================
