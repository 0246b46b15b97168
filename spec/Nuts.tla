-------------------------------- MODULE Nuts --------------------------------
(***************************************************************************)
(* No-U-turn transitions on every small trajectory, and warm-up windows.   *)
(***************************************************************************)
EXTENDS NutsTree, TLC, Json

CONSTANTS MaxDepth, Sampled,                     \* transitions
          Warm, Inits, Terms, Bases             \* windows
Ratios == {<<0, 0>>, <<1, 1>>, <<2, 1>>, <<1, 3>>, <<4, 4>>}
VARIABLES t, bad, turn, win
vars == <<t, bad, turn, win>>
L == P2(MaxDepth) - 1
Span == (0 - L)..L
Idle == [on |-> FALSE, depth |-> 0 - 1]

Init == t = Idle /\ bad = {} /\ turn = {} /\ win = <<>>
(* a trajectory: few bad points; far pairs turn more often *)
Begin == /\ t = Idle /\ win = <<>> /\ t' = Start(0) /\ UNCHANGED win
         /\ \E s \in 1..Sampled :
              /\ \E b \in {TLCEval({i \in Span \ {0} : RandomElement(1..(4 * L)) <= 2})} : bad' = b
              /\ \E u \in {TLCEval({p \in Span \X Span : p[1] < p[2] /\ RandomElement(1..(6 * L)) <= p[2] - p[1]})} : turn' = u
Grow == /\ t # Idle /\ t.on /\ t.depth < MaxDepth
        /\ \E v \in {-1, 1} : t' = Double(t, v, bad, turn)
        /\ UNCHANGED <<bad, turn, win>>
(* windows: <<n, initial buffer, end of the middle, start of next, width, windows so far>> *)
Clip0(a, b) == IF a < b THEN a ELSE b
Plan == /\ t = Idle /\ win = <<>> /\ UNCHANGED <<t, bad, turn>>
        /\ \E n \in Warm : \/ \E i \in Inits, e \in Terms, w \in Bases :
                                win' = <<"fixed", n, i, e, w, i, Clip0(w, n - e - i), <<>>>>
                           \/ \E r \in Ratios :          (* eighths of the warm-up; thirds of the middle *)
                                LET i == IF (r[1] * n) \div 8 < 1 THEN 1 ELSE (r[1] * n) \div 8
                                    e == IF (r[2] * n) \div 8 < 1 THEN 1 ELSE (r[2] * n) \div 8
                                    m == IF n - i - e < 0 THEN 0 ELSE (n - i - e) \div 3
                                    w == IF m < 1 THEN 1 ELSE m
                                IN win' = <<"ratio", n, r[1], r[2], i, e, w, i, Clip0(w, n - e - i), <<>>>>
Kind == win[1]
End == IF Kind = "fixed" THEN win[2] - win[4] ELSE win[2] - win[6]
At == IF Kind = "fixed" THEN win[6] ELSE win[8]
Wd == IF Kind = "fixed" THEN win[7] ELSE win[9]
Wins == IF Kind = "fixed" THEN win[8] ELSE win[10]
Set(s, w, l) == IF Kind = "fixed" THEN [win EXCEPT ![6] = s, ![7] = w, ![8] = l] ELSE [win EXCEPT ![8] = s, ![9] = w, ![10] = l]
Slide == /\ win # <<>> /\ At < End /\ UNCHANGED <<t, bad, turn>>
         /\ win' = IF At + Wd < End THEN Set(At + Wd, Clip0(2 * Wd, End - At - Wd), Append(Wins, <<At, At + Wd>>))
                   ELSE Set(End, 0, Append(Wins, <<At, End>>))
Next == Begin \/ Grow \/ Plan \/ Slide

(******************************* properties ********************************)
Live == t # Idle
Contains == Live => t.lo <= 0 /\ 0 <= t.hi
Full == Live /\ t.on => t.hi - t.lo + 1 = P2(t.depth)
Steps == Live => Len(t.seen) <= P2(t.depth) - 1 /\ Len(t.seen) >= t.depth
Good == Live => \A i \in t.lo..t.hi : i \notin bad
Distinct == Live => Cardinality({t.seen[i] : i \in 1..Len(t.seen)}) = Len(t.seen)
(* from every point of the tree the same tree is reached, by exactly one choice of directions: *)
(* choosing uniformly in the tree therefore leaves the target invariant *)
RECURSIVE Ways(_, _, _)
Ways(u, lo, hi) ==
  IF u.lo = lo /\ u.hi = hi THEN 1
  ELSE IF ~u.on \/ u.depth >= MaxDepth \/ u.lo < lo \/ u.hi > hi THEN 0
  ELSE Ways(Double(u, 1, bad, turn), lo, hi) + Ways(Double(u, -1, bad, turn), lo, hi)
Reversible == Live => \A z \in t.lo..t.hi : Ways(Start(z), t.lo, t.hi) = 1
(* windows tile the middle of the warm-up in order *)
Tiles == win # <<>> /\ At >= End /\ Len(Wins) > 0 =>
           /\ Wins[1][1] = (IF Kind = "fixed" THEN win[3] ELSE win[5]) /\ Wins[Len(Wins)][2] = End
           /\ \A i \in 1..(Len(Wins) - 1) : Wins[i][2] = Wins[i + 1][1]
           /\ \A i \in 1..Len(Wins) : Wins[i][1] < Wins[i][2]
           /\ \A i \in 1..(Len(Wins) - 2) : Wins[i + 1][2] - Wins[i + 1][1] = 2 * (Wins[i][2] - Wins[i][1])
Emit == win # <<>> /\ At >= End =>
          PrintT(ToJson([kind |-> Kind, n |-> win[2], a |-> win[3], b |-> win[4], w |-> (IF Kind = "fixed" THEN win[5] ELSE 0), windows |-> Wins]))
=============================================================================
