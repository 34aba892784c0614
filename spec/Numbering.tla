----------------------------- MODULE Numbering -----------------------------
(* Proofs, for any number of variants and of elements, of what the other    *)
(* specifications check on instances: numbering sums and products is a      *)
(* bijection, splitting positions into block and slot is one, and the       *)
(* number of blocks is the least that suffices.  Checked by tlapm.          *)
EXTENDS Integers, TLAPS

\* a pair of fields: the first one is the low digit
Pair(a, b, m) == a + b * m
Low(d, m)  == d % m
High(d, m) == d \div m

LEMMA Prod == ASSUME NEW k \in Nat, NEW m \in Nat PROVE k * m \in Nat
OBVIOUS
LEMMA Dist == ASSUME NEW k \in Int, NEW j \in Int, NEW m \in Int PROVE (k + j) * m = k * m + j * m
OBVIOUS
LEMMA Mono == ASSUME NEW b \in Nat, NEW n \in Nat, NEW m \in Nat, b <= n PROVE b * m <= n * m
<1>1. PICK k \in Nat : n = b + k
  <2>1. n - b \in Nat /\ n = b + (n - b) OBVIOUS
  <2> QED BY <2>1
<1>2. n * m = b * m + k * m BY <1>1, Dist
<1>3. k * m \in Nat BY Prod
<1>4. b * m \in Nat BY Prod
<1> QED BY <1>2, <1>3, <1>4

LEMMA Fits == ASSUME NEW m \in Nat, NEW n \in Nat, NEW a \in Nat, NEW b \in Nat, a < m, b < n
              PROVE  Pair(a, b, m) \in 0..(m * n - 1)
<1>1. (b + 1) * m <= n * m BY Mono
<1>2. (b + 1) * m = b * m + m BY Dist
<1>3. n * m = m * n OBVIOUS
<1>4. b * m \in Nat /\ m * n \in Nat BY Prod
<1>5. b * m + m <= m * n BY <1>1, <1>2, <1>3
<1>6. \A P, Q \in Nat : P + m <= Q => a + P \in 0..(Q - 1) OBVIOUS
<1> QED BY <1>4, <1>5, <1>6 DEF Pair

LEMMA DivMod == ASSUME NEW d \in Nat, NEW m \in Nat, m > 0
                PROVE /\ d = (d \div m) * m + (d % m)
                      /\ d % m \in 0..(m-1)
                      /\ d \div m \in Nat
OBVIOUS
LEMMA Lin == ASSUME NEW m \in Nat, NEW r \in Nat, NEW s \in Nat, NEW P \in Nat, NEW Q \in Nat, P + m <= Q, r < m, P + r = Q + s
             PROVE FALSE
OBVIOUS
LEMMA Unique == ASSUME NEW m \in Nat, m > 0, NEW q \in Nat, NEW r \in Nat, NEW p \in Nat, NEW s \in Nat,
                       r < m, s < m, q * m + r = p * m + s
                PROVE q = p /\ r = s
<1>1. CASE q < p
  <2>1. (q + 1) * m <= p * m BY <1>1, Mono
  <2>2. (q + 1) * m = q * m + m BY Dist
  <2>3. q * m \in Nat /\ p * m \in Nat BY Prod
  <2>4. q * m + m <= p * m BY <2>1, <2>2
  <2> QED BY <2>3, <2>4, Lin
<1>2. CASE p < q
  <2>1. (p + 1) * m <= q * m BY <1>2, Mono
  <2>2. (p + 1) * m = p * m + m BY Dist
  <2>3. q * m \in Nat /\ p * m \in Nat BY Prod
  <2>4. p * m + m <= q * m BY <2>1, <2>2
  <2> QED BY <2>3, <2>4, Lin
<1>3. CASE p = q
  <2>1. q * m \in Nat BY Prod
  <2> QED BY <1>3, <2>1
<1> QED BY <1>1, <1>2, <1>3

LEMMA Unpack == ASSUME NEW m \in Nat, NEW a \in Nat, NEW b \in Nat, a < m
                PROVE  Low(Pair(a, b, m), m) = a /\ High(Pair(a, b, m), m) = b
<1> DEFINE d == a + b * m
<1>1. d \in Nat BY Prod
<1>2. d = (d \div m) * m + (d % m) /\ d % m \in 0..(m-1) /\ d \div m \in Nat BY <1>1, DivMod
<1>3. (d \div m) * m + (d % m) = b * m + a BY <1>2, Prod
<1>5. m > 0 OBVIOUS
<1>6. \A q, r \in Nat : r < m /\ q * m + r = b * m + a => q = b /\ r = a BY <1>5, Unique
<1>7. d \div m \in Nat /\ d % m \in Nat /\ d % m < m BY <1>2
<1>4. d \div m = b /\ d % m = a BY <1>3, <1>6, <1>7
<1> QED BY <1>4 DEF Pair, Low, High

LEMMA Repack == ASSUME NEW m \in Nat, NEW n \in Nat, NEW d \in Nat, m > 0, d < m * n
                PROVE  /\ Pair(Low(d, m), High(d, m), m) = d
                       /\ Low(d, m) \in 0..(m - 1)
                       /\ High(d, m) \in 0..(n - 1)
<1>1. d = (d \div m) * m + (d % m) /\ d % m \in 0..(m-1) /\ d \div m \in Nat BY DivMod
<1>2. d \div m < n
  <2>1. SUFFICES ASSUME n <= d \div m PROVE FALSE BY <1>1
  <2>2. n * m <= (d \div m) * m BY <1>1, <2>1, Mono
  <2>3. (d \div m) * m \in Nat /\ n * m = m * n /\ m * n \in Nat BY <1>1, Prod
  <2>4. m * n <= (d \div m) * m BY <2>2, <2>3
  <2>5. \A P, Q, r \in Nat : ~(Q <= P /\ P + r < Q) OBVIOUS
  <2>6. d % m \in Nat BY <1>1
  <2>7. (d \div m) * m + (d % m) < m * n BY <1>1
  <2> QED BY <2>3, <2>4, <2>5, <2>6, <2>7
<1>3. (d \div m) * m \in Nat BY <1>1, Prod
<1> QED BY <1>1, <1>2, <1>3 DEF Pair, Low, High

\* an alternative: the variants of A first, then those of B (Result, Option, the arms of a derived enum)
Left(a) == a
Right(b, m) == m + b
LEMMA Sum == ASSUME NEW m \in Nat, NEW n \in Nat
             PROVE /\ \A a \in 0..(m - 1) : Left(a) \in 0..(m + n - 1) /\ Left(a) < m
                   /\ \A b \in 0..(n - 1) : Right(b, m) \in 0..(m + n - 1) /\ ~(Right(b, m) < m) /\ Right(b, m) - m = b
                   /\ \A d \in 0..(m + n - 1) : IF d < m THEN d \in 0..(m - 1) /\ Left(d) = d ELSE d - m \in 0..(n - 1) /\ Right(d - m, m) = d
BY DEF Left, Right

\* three fields: ((A, B), C) and A + B * |A| + C * |A| * |B| are the same number
LEMMA Triple == ASSUME NEW m \in Nat, NEW n \in Nat, NEW a \in Nat, NEW b \in Nat, NEW c \in Nat
                PROVE Pair(Pair(a, b, m), c, m * n) = a + b * m + c * (m * n)
BY DEF Pair

\* element i of a vector with e elements per block is in block i \div e, slot i % e
Block(i, e) == i \div e
Slot(i, e)  == i % e
Blocks(n, e) == (n + e - 1) \div e
LEMMA Places == ASSUME NEW e \in Nat, e > 0, NEW i \in Nat, NEW j \in Nat, Block(i, e) = Block(j, e), Slot(i, e) = Slot(j, e)
                PROVE i = j
<1>1. i = (i \div e) * e + (i % e) BY DivMod
<1>2. j = (j \div e) * e + (j % e) BY DivMod
<1> QED BY <1>1, <1>2 DEF Block, Slot

LEMMA Ceil == ASSUME NEW e \in Nat, e > 0, NEW n \in Nat
              PROVE /\ Blocks(n, e) \in Nat
                    /\ n <= Blocks(n, e) * e
                    /\ \A k \in Nat : n <= k * e => Blocks(n, e) <= k
<1> DEFINE d == n + e - 1
<1>1. d \in Nat OBVIOUS
<1>2. d = (d \div e) * e + (d % e) /\ d % e \in 0..(e - 1) /\ d \div e \in Nat BY <1>1, DivMod
<1>3. (d \div e) * e \in Nat BY <1>2, Prod
<1>4. \A P, r \in Nat : n + e - 1 = P + r /\ r <= e - 1 => n <= P OBVIOUS
<1>5. n <= (d \div e) * e BY <1>2, <1>3, <1>4
<1>6. ASSUME NEW k \in Nat, n <= k * e PROVE d \div e <= k
  <2>1. SUFFICES ASSUME k + 1 <= d \div e PROVE FALSE BY <1>2
  <2>2. (k + 1) * e <= (d \div e) * e BY <1>2, <2>1, Mono
  <2>3. (k + 1) * e = k * e + e BY Dist
  <2>4. k * e \in Nat BY Prod
  <2>5. \A P, Q, r \in Nat : ~(n + e - 1 = P + r /\ Q + e <= P /\ n <= Q) OBVIOUS
  <2>6. d % e \in Nat BY <1>2
  <2>7. k * e + e <= (d \div e) * e BY <2>2, <2>3
  <2> QED BY <1>2, <1>3, <1>6, <2>4, <2>5, <2>6, <2>7
<1> QED BY <1>2, <1>5, <1>6 DEF Blocks
=============================================================================
