------------------------------- MODULE Scores -------------------------------
(***************************************************************************)
(* Calculus of the truncated score of a Gaussian forecast.                 *)
(*                                                                         *)
(* The score over an interval is the integral there of the squared         *)
(* difference between the forecast distribution function and the step at   *)
(* the observation.  Hence cutting an interval anywhere, joining adjacent  *)
(* ones, moving everything by a constant and reflecting everything leave   *)
(* the total unchanged, and scaling everything multiplies it.  A history   *)
(* is any sequence of these; it ends with a forecast, an observation and a *)
(* set of intervals whose total is a known multiple of the first score.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Range, Spreads, MaxPieces

VARIABLES base, mu, s, z, iv, factor, n
vars == <<base, mu, s, z, iv, factor, n>>

Big == 100000
NInf == -Big
PInf == Big
Ends == {NInf, PInf} \cup (-Range..Range)
Move(x, k) == IF x \in {NInf, PInf} THEN x ELSE x + k
Mult(x, c) == IF x \in {NInf, PInf} THEN x ELSE x * c

Init == /\ mu \in -1..1 /\ s \in Spreads /\ z \in -Range..Range
        /\ \E lo, hi \in Ends : lo < hi /\ iv = << <<lo, hi>> >>
        /\ base = [mu |-> mu, s |-> s, z |-> z, iv |-> iv[1]]
        /\ factor = 1 /\ n = 0

Shift(k) == /\ mu' = mu + k /\ z' = z + k /\ UNCHANGED <<s, factor>>
            /\ iv' = [i \in 1..Len(iv) |-> <<Move(iv[i][1], k), Move(iv[i][2], k)>>]
Scale(c) == /\ factor * c <= 12
            /\ mu' = mu * c /\ z' = z * c /\ s' = s * c /\ factor' = factor * c
            /\ iv' = [i \in 1..Len(iv) |-> <<Mult(iv[i][1], c), Mult(iv[i][2], c)>>]
Reflect == /\ mu' = -mu /\ z' = -z /\ UNCHANGED <<s, factor>>
           /\ iv' = [i \in 1..Len(iv) |-> LET t == iv[Len(iv) + 1 - i] IN <<-t[2], -t[1]>>]
Cut(i, p) == /\ Len(iv) < MaxPieces /\ iv[i][1] < iv[i][2] /\ iv[i][1] <= p /\ p <= iv[i][2]
             /\ p \notin {NInf, PInf}
             /\ iv' = SubSeq(iv, 1, i - 1) \o << <<iv[i][1], p>>, <<p, iv[i][2]>> >> \o SubSeq(iv, i + 1, Len(iv))
             /\ UNCHANGED <<mu, s, z, factor>>
Join(i) == /\ iv' = SubSeq(iv, 1, i - 1) \o << <<iv[i][1], iv[i + 1][2]>> >> \o SubSeq(iv, i + 2, Len(iv))
           /\ UNCHANGED <<mu, s, z, factor>>

Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED base
        /\ \/ \E k \in {-2, 3} : Shift(k)
           \/ \E c \in {2, 3} : Scale(c)
           \/ Reflect
           \/ \E i \in 1..Len(iv) : \E p \in {mu, z, mu - 2 * s, z + 1} : Cut(i, p)
           \/ \E i \in 1..(Len(iv) - 1) : Join(i)

(* the intervals stay adjacent, and keep the (scaled) total length *)
Adjacent == \A i \in 1..(Len(iv) - 1) : iv[i][2] = iv[i + 1][1]
Length == LET a == base.iv[1] b == base.iv[2]
          IN a # NInf /\ b # PInf => iv[Len(iv)][2] - iv[1][1] = factor * (b - a)
Relative == (mu - z) * (mu - z) = factor * factor * (base.mu - base.z) * (base.mu - base.z)
            /\ s = factor * base.s
Emit == n = Depth => PrintT(ToJson([base |-> base, mu |-> mu, s |-> s, z |-> z, iv |-> iv, factor |-> factor]))
=============================================================================
