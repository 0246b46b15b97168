------------------------------- MODULE Param -------------------------------
(***************************************************************************)
(* Named, path-addressed, transformed parameter vectors.                   *)
(*                                                                         *)
(* An object is a sequence of entries [name, path, norm, bounds, val].     *)
(* A value is symbolic: [s |-> "i", k |-> k] was written on the internal   *)
(* scale as k/4, [s |-> "n", k |-> k] on the natural scale as k; each      *)
(* determines the other scale through the entry's transformation.          *)
(*                                                                         *)
(* Handles are arrays handed out by the object: a copy owns its values, a  *)
(* view aliases entries of an object, a dead view aliased storage that has *)
(* since been replaced as a whole (nothing is said about it any more).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Template,  \* which initial object
          Focus,     \* "edit", "scale" or "alias": actions enumerated
          Depth,
          Every      \* emit histories of every length, or only full ones

VARIABLES objs, handles, hist
vars == <<objs, handles, hist>>

E(n, p, m, b, v) == [name |-> n, path |-> p, norm |-> m, bounds |-> b, val |-> v]
I(k) == [s |-> "i", k |-> k]
N(k) == [s |-> "n", k |-> k]

Templates == <<
  << E("a", <<"c", "var">>, "log", <<>>, I(0)),
     E("b", <<"c", "len">>, "log_inv", <<1, 9>>, I(5)),
     E("c", <<"c", "len">>, "log_inv", <<>>, I(-8)),
     E("d", <<"c2">>, "none", <<0, 5>>, I(0)) >>,
  << E("a", <<"m">>, "none", <<-2, 1>>, I(5)),
     E("b", <<"c", "len">>, "log", <<1, 9>>, I(-8)),
     E("c", <<"m">>, "none", <<>>, I(0)),
     E("d", <<"c">>, "log_inv", <<1, 4>>, I(5)) >>,
  << E("a", <<"c", "length", "x">>, "log_inv", <<1, 4>>, I(0)),
     E("b", <<"c", "len">>, "log", <<>>, I(5)) >> >>
Extra == << E("u", <<"c", "len">>, "log", <<1, 9>>, I(5)),
            E("v", <<"c2">>, "none", <<>>, I(-8)) >>

PathsOf == { <<"c">>, <<"c", "len">>, <<"c", "var">>, <<"m">>, <<"c2">>,
             <<"len">>, <<"c", "length", "x">>, <<"c->len">>, <<>> }
IVals == {-8, 0, 5}
NVals == {1, 3, 8}

(* ---- addressing ---- *)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Match(o, path, pre) ==
  SelectSeq([j \in 1..Len(o) |-> j],
            LAMBDA j : IF pre THEN Prefix(path, o[j].path) ELSE o[j].path = path)
IndexOf(o, n) == CHOOSE j \in 1..Len(o) : o[j].name = n
Has(o, n) == \E j \in 1..Len(o) : o[j].name = n
Contiguous(ix) == ix # <<>> /\ \A j \in 1..(Len(ix) - 1) : ix[j + 1] = ix[j] + 1

(* natural value times 1000, exact enough to compare with integer bounds *)
ExpTab(k) == CASE k = -8 -> 135 [] k = 0 -> 1000 [] k = 5 -> 3490 [] k = 8 -> 7389
              [] k = -5 -> 286 [] OTHER -> 0
Nat1000(e) ==
  CASE e.val.s = "n" -> 1000 * e.val.k
    [] e.norm = "none" -> 250 * e.val.k
    [] e.norm = "log" -> ExpTab(e.val.k)
    [] e.norm = "log_inv" -> ExpTab(-e.val.k)
Inside(e) == e.bounds = <<>> \/ (Nat1000(e) >= 1000 * e.bounds[1] /\ Nat1000(e) <= 1000 * e.bounds[2])

(* ---- state changes ---- *)
PutAt(o, ix, vs) == (* write vs[m] at entry ix[m] *)
  [j \in 1..Len(o) |-> IF \E m \in 1..Len(ix) : ix[m] = j
                       THEN [o[j] EXCEPT !.val = vs[CHOOSE m \in 1..Len(ix) : ix[m] = j]]
                       ELSE o[j]]
Kill(w) == [h \in 1..Len(handles) |->
             IF handles[h].kind = "view" /\ handles[h].obj = w
             THEN [handles[h] EXCEPT !.kind = "dead"] ELSE handles[h]]
Step(a, os, hs) ==
  /\ Len(hist) < Depth
  /\ objs' = os /\ handles' = hs
  /\ hist' = Append(hist, [act |-> a,
       objs |-> [w \in 1..Len(os) |-> [j \in 1..Len(os[w]) |-> os[w][j] @@ [inside |-> Inside(os[w][j])]]],
       handles |-> [h \in 1..Len(hs) |->
          IF hs[h].kind = "view"
          THEN [kind |-> "view", vals |-> [m \in 1..Len(hs[h].ix) |->
                  [norm |-> os[hs[h].obj][hs[h].ix[m]].norm, val |-> os[hs[h].obj][hs[h].ix[m]].val]]]
          ELSE [kind |-> hs[h].kind, vals |-> hs[h].vals]]])
Refused(a) == Step(a @@ [refused |-> TRUE], objs, handles)
Done(a, os, hs) == Step(a @@ [refused |-> FALSE], os, hs)

Frozen(o, ix) == [m \in 1..Len(ix) |-> [norm |-> o[ix[m]].norm, val |-> o[ix[m]].val]]

(* ---- actions ---- *)
SetName(w, n, k) ==
  LET a == [op |-> "set_name", obj |-> w, name |-> n, k |-> k] IN
  IF Has(objs[w], n)
  THEN Done(a, [objs EXCEPT ![w] = PutAt(@, <<IndexOf(objs[w], n)>>, <<I(k)>>)], handles)
  ELSE Refused(a)

SetPath(w, p, pre, ks) ==
  LET ix == Match(objs[w], p, pre)
      a == [op |-> "set_path", obj |-> w, path |-> p, prefix |-> pre, ks |-> ks] IN
  IF Len(ix) = Len(ks)
  THEN Done(a, [objs EXCEPT ![w] = PutAt(@, ix, [m \in 1..Len(ks) |-> I(ks[m])])], handles)
  ELSE Refused(a)

SetNat(w, ns, ks) ==
  LET a == [op |-> "set_nat", obj |-> w, names |-> ns, ks |-> ks] IN
  IF \A m \in 1..Len(ns) : Has(objs[w], ns[m])
  THEN Done(a, [objs EXCEPT ![w] = PutAt(@, [m \in 1..Len(ns) |-> IndexOf(objs[w], ns[m])],
                                          [m \in 1..Len(ns) |-> N(ks[m])])], handles)
  ELSE Refused(a)

SetAll(w, ks) ==
  LET a == [op |-> "set_all", obj |-> w, ks |-> ks] IN
  IF Len(ks) = Len(objs[w])
  THEN Done(a, [objs EXCEPT ![w] = PutAt(@, [j \in 1..Len(ks) |-> j], [j \in 1..Len(ks) |-> I(ks[j])])],
            Kill(w))
  ELSE Refused(a)

SetDen(w, ks) ==
  LET a == [op |-> "set_den", obj |-> w, ks |-> ks] IN
  IF Len(ks) = Len(objs[w])
  THEN Done(a, [objs EXCEPT ![w] = PutAt(@, [j \in 1..Len(ks) |-> j], [j \in 1..Len(ks) |-> N(ks[j])])],
            Kill(w))
  ELSE Refused(a)

(* a new object from some entries of an old one *)
Pick(w, ix, how) ==
  Done([op |-> "pick", obj |-> w, ix |-> ix, how |-> how],
       Append(objs, [m \in 1..Len(ix) |-> objs[w][ix[m]]]), handles)
Concat(w, x, how) ==
  Done([op |-> "concat", obj |-> w, other |-> x, how |-> how], Append(objs, objs[w] \o objs[x]), handles)

ReadPath(w, p, pre, view) ==
  LET ix == Match(objs[w], p, pre)
      a == [op |-> "read_path", obj |-> w, path |-> p, prefix |-> pre, view |-> view] IN
  IF view
  THEN IF Contiguous(ix)
       THEN Done(a, objs, Append(handles, [kind |-> "view", obj |-> w, ix |-> ix]))
       ELSE Refused(a)
  ELSE Done(a, objs, Append(handles, [kind |-> "copy", vals |-> Frozen(objs[w], ix)]))
ReadName(w, n, view) ==
  LET a == [op |-> "read_name", obj |-> w, name |-> n, view |-> view] IN
  IF Has(objs[w], n)
  THEN LET ix == <<IndexOf(objs[w], n)>> IN
       Done(a, objs, Append(handles, IF view THEN [kind |-> "view", obj |-> w, ix |-> ix]
                                     ELSE [kind |-> "scalar", vals |-> Frozen(objs[w], ix)]))
  ELSE Refused(a)
(* the dictionary form, all entries *)
ReadDict(w) ==
  Done([op |-> "read_dict", obj |-> w], objs,
       Append(handles, [kind |-> "dict", vals |-> Frozen(objs[w], [j \in 1..Len(objs[w]) |-> j])]))
WriteHandle(h, m, k) ==
  LET hd == handles[h]
      a == [op |-> "write", handle |-> h, pos |-> m, k |-> k] IN
  IF hd.kind = "view"
  THEN Done(a, [objs EXCEPT ![hd.obj] = PutAt(@, <<hd.ix[m]>>, <<I(k)>>)], handles)
  ELSE Done(a, objs, [handles EXCEPT ![h].vals[m].val = I(k)])

(* ---- which actions are enumerated ---- *)
Fill(n, a, b) == [j \in 1..n |-> IF j % 2 = 1 THEN a ELSE b]
Names == {"a", "b", "c", "d", "zz"}
Slices(o) == { << [j \in 1..1 |-> Len(o)], "last" >>,
               << <<1>>, "first" >>,
               << [j \in 1..Len(o) |-> j], "whole" >>,
               << [j \in 1..Len(o) |-> j], "solo" >>,
               << [j \in 1..Len(o) |-> j], "empty_left" >>,
               << [j \in 1..Len(o) |-> j], "empty_right" >>,
               << [j \in 1..(Len(o) - 1) |-> j + 1], "tail" >>,
               << [j \in 1..((Len(o) + 1) \div 2) |-> 2 * j - 1], "step" >>,
               << [j \in 1..Len(o) |-> Len(o) + 1 - j], "reverse" >> }
Edits(w) ==
  \/ \E n \in Names : \E k \in {0, 5} : SetName(w, n, k)
  \/ \E p \in PathsOf : \E pre \in BOOLEAN : \E d \in {0, 1} :
       LET m == Len(Match(objs[w], p, pre)) IN SetPath(w, p, pre, Fill(m + d, -8, 5))
  \/ \E ns \in {<<"a">>, <<"b">>, <<"b", "a">>, <<"a", "zz">>, <<"zz", "b">>} :
       SetNat(w, ns, Fill(Len(ns), 3, 8))
  \/ \E d \in {-1, 0, 1} : SetAll(w, Fill(Len(objs[w]) + d, 5, 0)) \/ SetDen(w, Fill(Len(objs[w]) + d, 8, 3))
Derive(w) ==
  /\ Len(objs) < 4
  /\ \/ \E sl \in Slices(objs[w]) : sl[1] # <<>> /\ Pick(w, sl[1], sl[2])
     \/ /\ w # 2 /\ \A i \in 1..Len(objs[w]) : ~Has(objs[2], objs[w][i].name)
        /\ \E how \in {"add", "concat"} : Concat(w, 2, how)
ScaleActs(w) ==
  \/ \E n \in Names : \E k \in IVals : SetName(w, n, k)
  \/ \E n \in {"a", "b", "c", "d"} : \E k \in NVals : Has(objs[w], n) /\ SetNat(w, <<n>>, <<k>>)
  \/ \E a \in NVals : \E b \in NVals : SetDen(w, Fill(Len(objs[w]), a, b))
  \/ \E a \in IVals : \E b \in IVals : SetAll(w, Fill(Len(objs[w]), a, b))
Reads(w) ==
  \/ ReadDict(w)
  \/ \E p \in PathsOf : \E pre \in BOOLEAN : \E v \in BOOLEAN :
       (v \/ Match(objs[w], p, pre) # <<>>) /\ ReadPath(w, p, pre, v)
  \/ \E n \in {"a", "d", "zz"} : \E v \in BOOLEAN : ReadName(w, n, v)
Writes ==
  \E h \in 1..Len(handles) : /\ handles[h].kind \in {"view", "copy", "dict"}
     /\ LET len == IF handles[h].kind = "view" THEN Len(handles[h].ix) ELSE Len(handles[h].vals)
        IN \E m \in {1, len} : len > 0 /\ WriteHandle(h, m, -8)
SmallEdits(w) ==
  \/ \E n \in {"a", "d"} : SetName(w, n, 0)
  \/ SetPath(w, <<"c">>, TRUE, Fill(Len(Match(objs[w], <<"c">>, TRUE)), -8, 5))
  \/ SetNat(w, <<"a">>, <<3>>)

Init == /\ objs = <<Templates[Template], Extra>> /\ handles = <<>> /\ hist = <<>>
Next == \/ \E k \in {0, 5} : SetName(2, "u", k)
        \/ \E w \in (1..Len(objs)) \ {2} :
             CASE Focus = "edit" -> Edits(w) \/ Derive(w)
           [] Focus = "scale" -> ScaleActs(w) \/ Derive(w)
           [] OTHER -> SmallEdits(w) \/ Derive(w) \/ (Len(handles) < 4 /\ Reads(w)) \/ Writes
Spec == Init /\ [][Next]_vars

(* ---- properties of the specification ---- *)
NamesUnique == \A w \in 1..Len(objs) : \A i, j \in 1..Len(objs[w]) :
                 i # j => objs[w][i].name # objs[w][j].name
(* an edit of one object never changes another; refused edits change nothing *)
Isolated == [][LET r == hist'[Len(hist')] IN
     /\ r.act.refused => objs' = objs /\ handles' = handles
     /\ \A w \in 1..Len(objs) :
          objs'[w] # objs[w] =>
            \/ r.act.op \in {"set_name", "set_path", "set_nat", "set_all", "set_den"} /\ r.act.obj = w
            \/ r.act.op = "write" /\ handles[r.act.handle].kind = "view" /\ handles[r.act.handle].obj = w
     /\ \A w \in 1..Len(objs) : \A j \in 1..Len(objs[w]) :
          [objs'[w][j] EXCEPT !.val = 0] = [objs[w][j] EXCEPT !.val = 0]]_vars

Emit == (Len(hist) = Depth \/ (Every /\ Len(hist) > 0)) => PrintT(ToJson(hist))
=============================================================================
