------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences of *)
(* limbs in base 10000 without leading zero limbs (zero is <<>>).           *)
EXTENDS Integers, Sequences, TLC

BB == 10000

RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BOf(n \div BB)

BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == BLimb(a, i) + BLimb(b, i) + c IN <<s % BB>> \o BAddC(a, b, i + 1, s \div BB)
BAdd(a, b) == BAddC(a, b, 1, 0)

RECURSIVE BMulL(_, _, _, _)
BMulL(a, d, i, c) ==      \* a * d, d < BB
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % BB>> \o BMulL(a, d, i + 1, s \div BB)

RECURSIVE BMul(_, _)
BMul(a, b) ==
  IF b = <<>> \/ a = <<>> THEN <<>>
  ELSE LET lo == BMulL(a, b[1], 1, 0)
           hi == BMul(a, Tail(b)) IN
       BAdd(IF b[1] = 0 THEN <<>> ELSE lo, IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)

\* predecessor of a positive number
RECURSIVE BDec1(_)
BDec1(a) == IF a[1] = 0 THEN <<BB - 1>> \o BDec1(Tail(a)) ELSE <<a[1] - 1>> \o Tail(a)
RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> THEN <<>> ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a
BPred(a) == BNorm(BDec1(a))

RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpAt(a, b, Len(a))
BLt(a, b) == BCmp(a, b) = -1

Pad4(n) == (IF n < 1000 THEN "0" ELSE "") \o (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
RECURSIVE BShowRest(_, _)
BShowRest(a, i) == IF i = 0 THEN "" ELSE Pad4(a[i]) \o BShowRest(a, i - 1)
BShow(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o BShowRest(a, Len(a) - 1)
=============================================================================
