-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic on pairs <<num, den>> with den > 0, in lowest *)
(* terms.  TLC integers are 32 bit and overflow is an error, so a result   *)
(* is either exact or the run stops.                                       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RAbs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Q(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == Gcd(RAbs(n), RAbs(d))
  IN  IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>

QI(n) == <<n, 1>>
QZero == <<0, 1>>
QOne == <<1, 1>>
QNeg(a) == <<-a[1], a[2]>>
QAdd(a, b) ==
  LET g == Gcd(a[2], b[2])
  IN  Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) ==
  LET g == Gcd(RAbs(a[1]), b[2])
      h == Gcd(RAbs(b[1]), a[2])
      gg == IF g = 0 THEN 1 ELSE g
      hh == IF h = 0 THEN 1 ELSE h
  IN  Q((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QAbs(a) == <<RAbs(a[1]), a[2]>>

RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN QZero ELSE QAdd(Head(s), QSum(Tail(s)))

RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))

RECURSIVE IMinS(_)
IMinS(s) == IF Len(s) = 1 THEN s[1]
            ELSE LET m == IMinS(Tail(s)) IN IF Head(s) <= m THEN Head(s) ELSE m
RECURSIVE IMaxS(_)
IMaxS(s) == IF Len(s) = 1 THEN s[1]
            ELSE LET m == IMaxS(Tail(s)) IN IF Head(s) >= m THEN Head(s) ELSE m

ISort(s) ==
  (* increasing rearrangement of a sequence of integers *)
  LET RECURSIVE ins(_, _), srt(_)
      ins(x, t) == IF t = <<>> THEN <<x>>
                   ELSE IF x <= Head(t) THEN <<x>> \o t
                   ELSE <<Head(t)>> \o ins(x, Tail(t))
      srt(t) == IF t = <<>> THEN <<>> ELSE ins(Head(t), srt(Tail(t)))
  IN srt(s)

(* statistics of a non-empty sequence of integers *)
SMean(s) == Q(ISum(s), Len(s))
SSq(s) == ISum([k \in 1..Len(s) |-> s[k] * s[k]])
SVarU(s) == (* unbiased, needs Len >= 2 *)
  Q(Len(s) * SSq(s) - ISum(s) * ISum(s), Len(s) * (Len(s) - 1))
SVarP(s) == (* population *)
  Q(Len(s) * SSq(s) - ISum(s) * ISum(s), Len(s) * Len(s))
SQuant(s, q) ==
  (* linear interpolation between order statistics, q a rational in [0,1] *)
  LET t == ISort(s)
      pos == QMul(q, QI(Len(s) - 1))
      lo == pos[1] \div pos[2]
      frac == QSub(pos, QI(lo))
      a == t[lo + 1]
      b == IF lo + 2 <= Len(s) THEN t[lo + 2] ELSE a
  IN QAdd(QI(a), QMul(frac, QI(b - a)))
=============================================================================
