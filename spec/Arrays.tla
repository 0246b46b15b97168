------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Element types, values and sharing of one-dimensional arrays.            *)
(*                                                                         *)
(* A program makes arrays from numbers held in various forms, converts,    *)
(* combines, copies and writes to them.  An entry <<h, f>> stands for      *)
(* h/2 + f t, where t is far below single precision but well within double *)
(* precision: anything that goes through single precision loses f.         *)
(* Arrays of one region may share memory, so they are written to only when *)
(* they are alone in it; arrays of different regions never share.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Wide

VARIABLES slots, hist, fresh
vars == <<slots, hist, fresh>>

Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Numbers == [real |-> <<<<3, 1>>, <<-5, -2>>, <<0, 0>>, <<4, 3>>>>,
            single |-> <<<<3, 0>>, <<-5, 0>>, <<0, 0>>, <<4, 0>>>>,
            int |-> <<<<4, 0>>, <<-2, 0>>, <<0, 0>>, <<14, 0>>>>,
            bool |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>, <<2, 0>>>>]
Forms(k) == IF k = "single" THEN {"np"} ELSE {"list", "tuple", "np"}
Requests == {"none", "float", "int", "bool", "float64", "int64", "np.float64", "np.int64", "np.bool", "float32"}
TypeFor(k, r) == CASE r \in {"float", "float64", "np.float64"} -> "real"
                   [] r \in {"int", "int64", "np.int64"} -> "int"
                   [] r \in {"bool", "np.bool"} -> "bool"
                   [] r = "float32" -> "single"
                   [] r = "none" -> IF k = "single" THEN "real" ELSE k

(* an entry as an element of type t *)
Whole(e) == e[1] % 2 = 1 \/ e[2] = 0 \/ Sign(e[2]) = Sign(e[1])
Trunc(h) == IF h >= 0 THEN 2 * (h \div 2) ELSE -(2 * ((-h) \div 2))
As(t, e) == CASE t = "real" -> e
              [] t = "single" -> IF e[1] = 0 THEN e ELSE <<e[1], 0>>
              [] t = "int" -> <<Trunc(e[1]), 0>>
              [] t = "bool" -> IF e = <<0, 0>> THEN <<0, 0>> ELSE <<2, 0>>
Convertible(t, v) == t = "int" => \A j \in 1..Len(v) : Whole(v[j])
AsAll(t, v) == [j \in 1..Len(v) |-> As(t, v[j])]

Rank(t) == CASE t = "bool" -> 1 [] t = "int" -> 2 [] t = "single" -> 3 [] t = "real" -> 4
Joint(s, t) == IF Rank(s) >= Rank(t) THEN s ELSE t
(* how single precision meets integers is left open *)
Settled(s, t) == ~({s, t} \in {{"single", "int"}, {"single", "bool"}})

Push(op, t, v, region) ==
  /\ slots' = Append(slots, [type |-> t, vals |-> v, region |-> region])
  /\ fresh' = IF region = fresh THEN fresh + 1 ELSE fresh
  /\ hist' = Append(hist, [op |-> op, slots |-> [k \in 1..Len(slots') |-> [type |-> slots'[k].type, vals |-> slots'[k].vals]]])

Make(fn, form, k, r) ==
  LET t == TypeFor(k, r)
  IN Push([fn |-> fn, form |-> form, kind |-> k, vals |-> Numbers[k], req |-> r], t, AsAll(t, Numbers[k]), fresh)
Fill(fn, n, r) ==
  LET t == TypeFor("real", r)
      v == CASE fn = "zeros" -> <<0, 0>> [] fn = "ones" -> <<2, 0>> [] fn = "full" -> <<5, 1>>
  IN Push([fn |-> fn, n |-> n, req |-> r], t, [j \in 1..n |-> As(t, v)], fresh)
(* equally spaced numbers *)
Range(fn, a, d, n, r) ==
  LET t == TypeFor(IF fn = "arange" THEN "int" ELSE "real", r)
  IN Push([fn |-> fn, a |-> a, d |-> d, n |-> n, req |-> r], t, [j \in 1..n |-> <<2 * (a + (j - 1) * d), 0>>], fresh)
(* one row of a unit matrix *)
Unit(n, m, row, r) ==
  Push([fn |-> "eye", n |-> n, m |-> m, row |-> row, req |-> r], TypeFor("real", r),
       [j \in 1..m |-> IF j = row THEN <<2, 0>> ELSE <<0, 0>>], fresh)

Like(fn, i) ==
  LET s == slots[i]
      v == CASE fn = "zeros_like" -> <<0, 0>> [] fn = "ones_like" -> <<2, 0>> [] fn = "full_like" -> <<6, 0>>
  IN Push([fn |-> fn, i |-> i], s.type, [j \in 1..Len(s.vals) |-> As(s.type, v)], fresh)
Convert(fn, i, r) ==
  LET s == slots[i]
      t == TypeFor(s.type, r)
  IN Convertible(t, s.vals) /\ Push([fn |-> fn, i |-> i, req |-> r], t, AsAll(t, s.vals), s.region)
(* whether a copy keeps single precision is left open *)
Copy(i) == slots[i].type # "single" /\ Push([fn |-> "copy", i |-> i], slots[i].type, slots[i].vals, fresh)
(* a view: everything but the first entry *)
Rest(i) == Len(slots[i].vals) > 1 /\ Push([fn |-> "rest", i |-> i], slots[i].type, Tail(slots[i].vals), slots[i].region)
AddTo(e, g) == <<e[1] + g[1], e[2] + g[2]>>
Plus(i, j) ==
  LET s == slots[i]
      u == slots[j]
      t == Joint(s.type, u.type)
  IN /\ Len(s.vals) = Len(u.vals) /\ Settled(s.type, u.type) /\ t # "bool"
     /\ Push([fn |-> "plus", i |-> i, j |-> j], t, [k \in 1..Len(s.vals) |-> As(t, AddTo(s.vals[k], u.vals[k]))], fresh)
Triple(i) ==
  LET s == slots[i]
      t == Joint(s.type, "int")
  IN Push([fn |-> "triple", i |-> i], t, [k \in 1..Len(s.vals) |-> <<3 * s.vals[k][1], 3 * s.vals[k][2]>>], fresh)
(* division by two of whole numbers *)
Halve(i) ==
  LET s == slots[i]
  IN s.type \in {"int", "bool"}
     /\ Push([fn |-> "halve", i |-> i], "real", [k \in 1..Len(s.vals) |-> <<s.vals[k][1] \div 2, 0>>], fresh)
Positive(i) ==
  LET s == slots[i]
  IN Push([fn |-> "positive", i |-> i], "bool",
          [k \in 1..Len(s.vals) |-> IF s.vals[k][1] > 0 \/ (s.vals[k][1] = 0 /\ s.vals[k][2] > 0) THEN <<2, 0>> ELSE <<0, 0>>], fresh)
Select(c, i, j) ==
  LET b == slots[c]
      s == slots[i]
      u == slots[j]
      t == Joint(s.type, u.type)
  IN /\ b.type = "bool" /\ Len(b.vals) = Len(s.vals) /\ Len(s.vals) = Len(u.vals) /\ Settled(s.type, u.type)
     /\ Push([fn |-> "where", c |-> c, i |-> i, j |-> j], t,
             [k \in 1..Len(s.vals) |-> IF b.vals[k][1] = 2 THEN s.vals[k] ELSE u.vals[k]], fresh)
Join(i, j) ==
  LET s == slots[i]
      u == slots[j]
  IN Settled(s.type, u.type)
     /\ Push([fn |-> "concatenate", i |-> i, j |-> j], Joint(s.type, u.type), s.vals \o u.vals, fresh)
RECURSIVE Total(_)
Total(v) == IF v = <<>> THEN <<0, 0>> ELSE AddTo(Head(v), Total(Tail(v)))
Summed(i) == slots[i].type # "single" /\ Push([fn |-> "sum", i |-> i], Joint(slots[i].type, "int"), <<Total(slots[i].vals)>>, fresh)

Alone(i) == \A k \in 1..Len(slots) : k # i => slots[k].region # slots[i].region
Write(i, p) ==
  /\ Alone(i) /\ p <= Len(slots[i].vals) /\ slots[i].type # "bool"
  /\ slots' = [slots EXCEPT ![i].vals[p] = <<18, 0>>]
  /\ UNCHANGED fresh
  /\ hist' = Append(hist, [op |-> [fn |-> "write", i |-> i, p |-> p],
                           slots |-> [k \in 1..Len(slots') |-> [type |-> slots'[k].type, vals |-> slots'[k].vals]]])

Init == slots = <<>> /\ hist = <<>> /\ fresh = 1
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in DOMAIN Numbers, r \in Requests, fn \in {"array", "asarray"} :
                \E form \in Forms(k) : Make(fn, form, k, r)
           \/ \E fn \in {"zeros", "ones", "full"}, n \in {1, 4}, r \in {"none", "float", "int", "bool"} : Fill(fn, n, r)
           \/ \E fn \in {"arange", "linspace"}, a \in {0, 3}, d \in {1, 2}, r \in {"none", "float", "int"} : Range(fn, a, d, 4, r)
           \/ \E n \in {1, 3}, m \in {1, 3, 4}, r \in {"none", "float", "int", "bool"} : \E row \in {1, n} : Unit(n, m, row, r)
           \/ \E i \in 1..Len(slots) :
                \/ \E fn \in {"zeros_like", "ones_like", "full_like"} : Like(fn, i)
                \/ \E r \in Requests : Convert("asarray", i, r)
                \/ Convert("asdouble", i, "float") \/ Convert("asint", i, "int")
                \/ Copy(i) \/ Rest(i) \/ Triple(i) \/ Halve(i) \/ Positive(i) \/ Summed(i)
                \/ \E p \in {1, 3} : Write(i, p)
                \/ \E j \in 1..Len(slots) : Plus(i, j) \/ Join(i, j) \/ (Wide /\ \E c \in 1..Len(slots) : Select(c, i, j))

(* entries fit their type *)
Fits == \A k \in 1..Len(slots) : \A j \in 1..Len(slots[k].vals) :
          LET e == slots[k].vals[j]
          IN CASE slots[k].type = "bool" -> e \in {<<0, 0>>, <<2, 0>>}
               [] slots[k].type = "int" -> e[1] % 2 = 0 /\ e[2] = 0
               [] OTHER -> TRUE
(* converting twice to one type is converting once *)
Idempotent == \A k \in 1..Len(slots) : \A t \in {"real", "single", "int", "bool"} :
                LET v == slots[k].vals IN Convertible(t, v) => AsAll(t, AsAll(t, v)) = AsAll(t, v)
(* a write is seen in one array only *)
OneWrite == [][ Len(slots') = Len(slots) => Cardinality({k \in 1..Len(slots) : slots'[k] # slots[k]}) <= 1 ]_vars
(* double precision is never lost unless asked for *)
Kept == [][ LET o == hist'[Len(hist')].op
            IN Len(slots') > Len(slots) /\ slots'[Len(slots')].type = "single"
                 => ("req" \in DOMAIN o /\ o.req = "float32") \/ ("i" \in DOMAIN o /\ slots[o.i].type = "single") ]_vars
Emit == Len(hist) = Depth => PrintT(ToJson([hist |-> hist]))
=============================================================================
