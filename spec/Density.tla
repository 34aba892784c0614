------------------------------ MODULE Density ------------------------------
(* Packing arithmetic.  A number of variants is given as <<k, d>> meaning   *)
(* 2^k + d with d in {-1, 0, 1, ...}, |d| < 2^(k-1), so that 64-bit numbers *)
(* stay within TLC's integers.                                              *)
EXTENDS Naturals, Integers

\* ceil(log2(2^k + d)):   d <= 0 -> k (as long as 2^k + d > 2^(k-1)),  d > 0 -> k + 1
Bits(k, d)        == IF d <= 0 THEN k ELSE k + 1
Epb(B, bits)      == B \div bits
Blocks(n, epb)    == (n + epb - 1) \div epb
\* The storage admits the type: at least two variants and at most 2^B
AtLeastTwo(k, d)  == (k >= 2) \/ (k = 1 /\ d >= 0) \/ (k = 0 /\ d >= 1)
AtMostPow(k, d, B) == (k < B) \/ (k = B /\ d <= 0)
Admissible(k, d, B) == AtLeastTwo(k, d) /\ AtMostPow(k, d, B)
=============================================================================
