------------------------------ MODULE VecImpl ------------------------------
(* The block-level algorithm of EnumVec, for blocks of B bits and elements  *)
(* of W bits, written operation by operation after vec_u32/mod.rs (the six  *)
(* storage modules are copies of it):                                       *)
(*   bl - the storage: its blocks, as numbers below 2^B.  It may be longer  *)
(*        than the elements need, and what is not an element is arbitrary:  *)
(*        elements that were removed, filling, shifted-out bits;            *)
(*   n  - the number of elements.                                           *)
(* TLC explores every storage that the operations can produce (up to MAXB   *)
(* blocks, and up to LONGB blocks for storages of at most two runs) and     *)
(* checks in each that every operation refines VecSem (Refines), never      *)
(* touches a block that does not exist (the result BAD), and leaves a       *)
(* storage that backs all elements.  Each state also writes its transitions *)
(* to OUT; the walk of harness/vec takes every one of them on the real      *)
(* storage modules.                                                         *)
(*                                                                          *)
(* BUGS names defects of the code as it was found; with one of them the     *)
(* model must be refuted (check/impl.py does that), which shows that the    *)
(* bounds are large enough to meet it.                                      *)
EXTENDS VecSem, Bitwise, TLC, Json

CONSTANTS B, W,       \* bits per block, per element
          PAL,        \* the values used, as numbers below 2^W
          MAXB,       \* storages of up to so many blocks are explored completely
          LONGB,      \* and up to so many if they consist of at most two runs
          RAWBLOCKS,  \* with block-wise access (TRUE or FALSE)
          BUGS,       \* defects of the code as found
          OUT         \* directory for the transitions, or ""

VARIABLE v

E     == B \div W
FULL  == 2^B - 1
EMASK == 2^W - 1
PALQ  == SetToSortSeq(PAL, <)
P     == Len(PALQ)
Enc(x) == PALQ[x + 1]
Dec(y) == IF y \in PAL THEN CHOOSE x \in 0..(P - 1) : PALQ[x + 1] = y ELSE 99
BAD   == <<"x">>
Bug(b) == b \in BUGS

Vec(bl, n) == [bl |-> bl, n |-> n]
EMPTY == Vec(<<>>, 0)
Blk(n) == (n + E - 1) \div E
Zeros(k) == [j \in 1..k |-> 0]
ResizeBl(bl, k, x) == IF k <= Len(bl) THEN SubSeq(bl, 1, k) ELSE bl \o [j \in 1..(k - Len(bl)) |-> x]
Fix(s) == [s EXCEPT !.bl = SubSeq(s.bl, 1, Min2(Blk(s.n), Len(s.bl)))]        \* fix_storage

Off(i) == (i % E) * W
Fld(b, o) == (b \div 2^o) % 2^W
\* get_raw_unchecked / set_raw_unchecked; a missing block shows as a storage that is not a sequence of blocks
InBl(s, i) == i \div E < Len(s.bl)
RawGet(s, i) == Fld(s.bl[i \div E + 1], Off(i))
RawSet(s, i, x) ==
  LET k == i \div E + 1  b == s.bl[k] IN [s EXCEPT !.bl[k] = b - Fld(b, Off(i)) * 2^Off(i) + x * 2^Off(i)]
Shl(b, k) == (b * 2^k) % 2^B
Shr(b, k) == b \div 2^k

\* ------------------------------------------------------------ operations
Grow(s) == IF s.n % E = 0 /\ Blk(s.n) = Len(s.bl) THEN [s EXCEPT !.bl = Append(s.bl, 0)] ELSE s
Push(s, x) == LET g == Grow(s) IN RawSet([g EXCEPT !.n = s.n + 1], s.n, x)
RECURSIVE Pushes(_, _)
Pushes(s, q) == IF q = <<>> THEN s ELSE Pushes(Push(s, q[1]), SubSeq(q, 2, Len(q)))
Reserve(s, k) == [s EXCEPT !.bl = ResizeBl(s.bl, ((s.n + k) \div E) + 1, 0)]
Extend(s, q, hint) == Pushes(Reserve(s, hint), q)
Truncate(s, k) == IF k < s.n THEN [s EXCEPT !.n = k] ELSE s

RECURSIVE Fill(_, _)
Fill(b, i) == IF i >= B THEN b ELSE Fill(b | ((b * 2^i) % 2^B), 2 * i)
ExtendWith(s, x, count) ==
  IF count <= 4 * E THEN Extend(s, Rep(x, count), count)
  ELSE LET first == E - (s.n % E)
           s1 == Extend(s, Rep(x, first), first)
           blocks == (count - first) \div E
           last == count - (first + blocks * E)
           s2 == Fix(s1)
           s3 == [bl |-> ResizeBl(s2.bl, Len(s2.bl) + blocks, Fill(x, W)), n |-> s1.n + blocks * E] IN
       Extend(s3, Rep(x, last), last)

RECURSIVE SlowIns(_, _, _, _)
\* returns <<s, value carried on>>
SlowIns(s, i, lim, prev) == IF i >= lim THEN <<s, prev>> ELSE SlowIns(RawSet(s, i, prev), i + 1, lim, RawGet(s, i))
LASTOFF == (E - 1) * W
InsBlock(b, in) == IF Bug("wide_shift") /\ W = B THEN <<FULL & (b | in), Fld(b, LASTOFF)>>
                   ELSE <<Shl(b, W) + in, Fld(b, LASTOFF)>>
RECURSIVE InsBlocks(_, _, _, _)
InsBlocks(s, k, lastk, prev) ==
  IF k > lastk THEN s
  ELSE LET x == InsBlock(s.bl[k + 1], prev) IN InsBlocks([s EXCEPT !.bl[k + 1] = x[1]], k + 1, lastk, x[2])
InsertAt0(s, at, x) ==
  LET s1 == Push(s, x)
      slow == at % E
      lim == Min2(at - slow + E, s1.n)
      si == IF slow > 0 THEN SlowIns(s1, at, lim, x) ELSE <<s1, x>>
      i == IF slow > 0 THEN Max2(lim, at) ELSE at IN
  IF i < s1.n THEN InsBlocks(si[1], i \div E, (s1.n - 1) \div E, si[2]) ELSE si[1]

RECURSIVE SlowRem(_, _, _)
SlowRem(s, i, lim) == IF i >= lim THEN s ELSE SlowRem(RawSet(s, i, RawGet(s, i + 1)), i + 1, lim)
\* the field at LASTOFF and the unused bits above it are replaced
RemBlock(b, in) == LET t == Shr(b, W) IN
  <<IF Bug("wide_shift") /\ W = B THEN b | in
    ELSE IF Bug("remove_unused_bits") THEN t | (in * 2^LASTOFF)
    ELSE t - Fld(t, LASTOFF) * 2^LASTOFF + in * 2^LASTOFF, b % 2^W>>
RECURSIVE RemBlocks(_, _, _, _)
RemBlocks(s, k, firstk, prev) ==
  IF k < firstk THEN s
  ELSE LET x == RemBlock(s.bl[k + 1], prev) IN RemBlocks([s EXCEPT !.bl[k + 1] = x[1]], k - 1, firstk, x[2])
RemoveAt0(s, at) ==
  LET len == s.n - 1
      lim == Min2(len, (1 + at \div E) * E)
      s1 == SlowRem(s, at, lim)
      i == Max2(lim, at)
      prev == RawGet(s1, s.n - 1)
      s2 == [s1 EXCEPT !.n = len] IN
  IF i < len THEN RemBlocks(s2, (len - 1) \div E, i \div E, prev) ELSE s2

RECURSIVE CopyIn(_, _, _, _, _)
\* elements i.. of t (from position from) to positions at+i of s
CopyIn(s, t, from, at, i) ==
  IF from + i >= t.n THEN s ELSE CopyIn(RawSet(s, at + i, RawGet(t, from + i)), t, from, at, i + 1)
AppendTo(s, t) ==
  IF s.n % E = 0
  THEN <<[bl |-> Fix(s).bl \o Fix(t).bl, n |-> s.n + t.n], IF Bug("append_len") THEN [bl |-> <<>>, n |-> t.n] ELSE EMPTY>>
  ELSE LET s1 == Reserve(s, t.n) IN
       <<CopyIn([s1 EXCEPT !.n = s.n + t.n], t, 0, s.n, 0), [t EXCEPT !.n = 0]>>
SplitOff(s, at) ==
  LET k == s.n - at
      o == [bl |-> IF Bug("split_storage") THEN <<>> ELSE Zeros(Blk(k)), n |-> k] IN
  <<[s EXCEPT !.n = at], IF Bug("split_storage") THEN o ELSE CopyIn(o, s, at, 0, 0)>>

RECURSIVE Retain(_, _, _, _)
Retain(s, K, i, j) ==
  IF i >= s.n THEN [s EXCEPT !.n = j]
  ELSE LET x == RawGet(s, i) IN
       IF x \in K THEN Retain(RawSet(s, j, x), K, i + 1, j + 1) ELSE Retain(s, K, i + 1, j)
RECURSIVE ForEach(_, _, _)
ForEach(s, k, i) == IF i >= s.n THEN s ELSE ForEach(RawSet(s, i, Enc((Dec(RawGet(s, i)) + k) % P)), k, i + 1)

ONE  == (FULL \div EMASK) \div 2^(B % W)
HIGH == ONE * 2^(W - 1)
Not0(x) == FULL - x
Sub(x, y) == (x - y + 2^B) % 2^B
HasZero(x) == ((Sub(x, ONE) & Not0(x)) & HIGH) # 0
AnyHack(s, x) ==
  IF s.n = 0 THEN FALSE
  ELSE LET lb == s.n \div E  sh == Off(s.n)  xm == x * ONE IN
    \/ \E k \in 1..lb : HasZero(s.bl[k] ^^ xm)
    \/ sh # 0 /\ HasZero((s.bl[lb + 1] ^^ xm) | ((FULL * 2^sh) % 2^B))
AllHack(s, x) ==
  IF s.n = 0 THEN TRUE
  ELSE LET lb == s.n \div E  sh == Off(s.n)  xm == x * ONE  valid == FULL \div 2^(B % W) IN
    /\ \A k \in 1..lb : s.bl[k] & valid = xm
    /\ sh # 0 => (s.bl[lb + 1] % 2^sh) = xm % 2^sh
EqVec(s, t) == s.n = t.n /\ \A i \in 0..(s.n - 1) : RawGet(s, i) = RawGet(t, i)

\* ----------------------------------------------------------- transitions
\* An operation is [o, a, q (as in VecSem), p, j (partner: contents, junk behind it), m (1: go on with the partner)]
Op(o, a, q) == [o |-> o, a |-> a, q |-> q, p |-> <<>>, j |-> <<>>, m |-> 0]
Op2(o, a, p, j, m) == [o |-> o, a |-> a, q |-> <<>>, p |-> p, j |-> j, m |-> m]
EncQ(q) == [k \in 1..Len(q) |-> Enc(q[k])]
Abs(s) == [k \in 1..s.n |-> Dec(RawGet(s, k - 1))]
Built(p, j) == Truncate(Extend(EMPTY, EncQ(p \o j), Len(p \o j)), Len(p))

\* [r, s (slot 0), t (slot 1)]
R1(r, s, t) == [r |-> r, s |-> s, t |-> t]
Hint(e) == CASE e.a[1] = 0 -> Len(e.q) [] e.a[1] = 2 -> 0 [] e.a[1] = 3 -> Len(e.q) \div 2
Impl(e, s, t) ==
  LET a == e.a  n == s.n IN
  CASE e.o = "push"     -> R1(U, Push(s, Enc(a[1])), t)
    [] e.o = "pop"      -> IF n = 0 THEN R1(NONE, s, t) ELSE R1(SOME(Dec(RawGet(s, n - 1))), [s EXCEPT !.n = n - 1], t)
    [] e.o = "get"      -> IF a[1] < n THEN R1(SOME(Dec(RawGet(s, a[1]))), s, t) ELSE R1(NONE, s, t)
    [] e.o = "set"      -> IF a[1] < n THEN R1(U, RawSet(s, a[1], Enc(a[2])), t) ELSE R1(PANIC, s, t)
    [] e.o = "insert"   -> IF a[1] <= n THEN R1(U, InsertAt0(s, a[1], Enc(a[2])), t)
                           ELSE IF Bug("insert_oob") THEN R1(U, Push(s, Enc(a[2])), t) ELSE R1(PANIC, s, t)
    [] e.o = "remove"   -> IF a[1] < n THEN R1(VAL(Dec(RawGet(s, a[1]))), RemoveAt0(s, a[1]), t) ELSE R1(PANIC, s, t)
    [] e.o = "swap"     -> IF a[1] < n /\ a[2] < n
                           THEN R1(U, RawSet(RawSet(s, a[1], RawGet(s, a[2])), a[2], RawGet(s, a[1])), t) ELSE R1(PANIC, s, t)
    [] e.o = "swap_remove" -> IF a[1] < n
                           THEN R1(VAL(Dec(RawGet(s, a[1]))), [RawSet(RawSet(s, a[1], RawGet(s, n - 1)), n - 1, RawGet(s, a[1])) EXCEPT !.n = n - 1], t)
                           ELSE R1(PANIC, s, t)
    [] e.o = "truncate" -> R1(U, Truncate(s, a[1]), t)
    [] e.o = "clear"    -> R1(U, Truncate(s, 0), t)
    [] e.o = "len"      -> R1(<<"l", n, IF n = 0 THEN 1 ELSE 0>>, s, t)
    [] e.o = "from_elem" -> R1(U, ExtendWith(EMPTY, Enc(a[1]), a[2]), t)
    [] e.o = "from_slice" -> R1(U, Extend(EMPTY, EncQ(e.q), Len(e.q)), t)
    [] e.o = "clone"    -> R1(U, s, s)
    [] e.o = "extend"   -> R1(U, Extend(s, EncQ(e.q), Hint(e)), t)
    [] e.o = "extend_iter" -> R1(U, Extend(s, EncQ(Abs(t)), t.n), t)
    [] e.o = "resize"   -> R1(U, IF a[1] > n THEN ExtendWith(s, Enc(a[2]), a[1] - n) ELSE Truncate(s, a[1]), t)
    [] e.o = "append"   -> LET x == AppendTo(s, t) IN R1(U, x[1], x[2])
    [] e.o = "split_off" -> IF a[1] <= n THEN LET x == SplitOff(s, a[1]) IN R1(U, x[1], x[2]) ELSE R1(PANIC, s, t)
    [] e.o = "retain"   -> R1(<<"c", Abs(s)>>, Retain(s, {Enc(x) : x \in Elems(e.q)}, 0, 0), t)
    [] e.o = "for_each" -> R1(<<"c", Abs(s)>>, ForEach(s, a[1], 0), t)
    [] e.o = "to_vec"   -> R1(SEQ(Abs(s)), s, t)
    [] e.o = "reserve"  -> R1(U, Reserve(s, a[1]), t)
    [] e.o = "shrink"   -> R1(U, Fix(s), t)
    [] e.o = "raw_push" -> LET s1 == Reserve(s, Len(e.q)) IN
                           R1(U, CopyIn([s1 EXCEPT !.n = n + Len(e.q)], Built(e.q, <<>>), 0, n, 0), t)
    [] e.o = "get_raw"  -> R1(VAL(Dec(RawGet(s, a[1]))), s, t)
    [] e.o = "set_raw"  -> R1(U, RawSet(s, a[1], Enc(a[2])), t)
    [] e.o = "set_len"  -> R1(U, [s EXCEPT !.n = a[1]], t)
    [] e.o = "blk_zero" -> R1(U, [s EXCEPT !.bl[a[1] + 1] = 0], t)
    [] e.o = "blk_copy" -> R1(U, [s EXCEPT !.bl[a[1] + 1] = s.bl[a[2] + 1]], t)
    [] e.o = "transplant" -> R1(U, s, s)
    [] e.o = "pad"      -> R1(U, [s EXCEPT !.bl = @ \o Rep(IF a[2] < 0 THEN 0 ELSE s.bl[a[2] + 1], a[1])], t)
    [] e.o = "any"      -> R1(SEQ([k \in 1..Len(e.q) |-> IF AnyHack(s, Enc(e.q[k])) THEN 1 ELSE 0]), s, t)
    [] e.o = "all"      -> R1(SEQ([k \in 1..Len(e.q) |-> IF AllHack(s, Enc(e.q[k])) THEN 1 ELSE 0]), s, t)
    [] e.o = "eq"       -> LET x == EqVec(s, t) IN
                           R1(IF x THEN <<"e", 1, 1, 0, 1>> ELSE <<"e", 0, 0, 1, 0>>, s, t)

\* What VecSem says about the queries
QuerySem(e, st) ==
  CASE e.o = "any" -> SEQ([k \in 1..Len(e.q) |-> IF AnyIs(st[0], e.q[k]) THEN 1 ELSE 0])
    [] e.o = "all" -> SEQ([k \in 1..Len(e.q) |-> IF AllAre(st[0], e.q[k]) THEN 1 ELSE 0])
    [] e.o = "eq"  -> IF st[0] = st[1] THEN <<"e", 1, 1, 0, 1>> ELSE <<"e", 0, 0, 1, 0>>
QOPS == {"any", "all", "eq"}

VALS == 0..(P - 1)
ALLQ == [k \in 1..P |-> k - 1]
\* 0 1 0 1 ..
Alt(k) == [j \in 1..k |-> (j + k) % P]
EXTQ == {<<>>} \cup {<<x>> : x \in VALS} \cup {<<x, y>> : x \in VALS, y \in VALS} \cup {Alt(k) : k \in 3..(2 * E + 1)}
PARTS == {<<p, j>> : p \in {<<>>, <<1>>, Alt(E), Alt(E + 1), Alt(2 * E)}, j \in {<<>>, Rep(P - 1, E)}}
\* the same contents, and with the last element changed
Twin(s) == {Abs(s)} \cup (IF s.n = 0 THEN {} ELSE {[Abs(s) EXCEPT ![s.n] = (@ + 1) % P], [Abs(s) EXCEPT ![1] = (@ + 1) % P], SubSeq(Abs(s), 1, s.n - 1)})

OpsOf(s) ==
  LET n == s.n IN
  {Op("push", <<x>>, <<>>) : x \in VALS} \cup {Op("pop", <<>>, <<>>), Op("clear", <<>>, <<>>), Op("len", <<>>, <<>>), Op("to_vec", <<>>, <<>>)}
  \cup {Op("get", <<i>>, <<>>) : i \in 0..(n + 1)}
  \cup {Op("set", <<i, x>>, <<>>) : i \in 0..n, x \in VALS}
  \cup {Op("insert", <<i, x>>, <<>>) : i \in 0..(n + 1), x \in VALS}
  \cup {Op("remove", <<i>>, <<>>) : i \in 0..(n + 1)}
  \cup {Op("swap", <<i, j>>, <<>>) : i \in 0..n, j \in 0..n}
  \cup {Op("swap_remove", <<i>>, <<>>) : i \in 0..n}
  \cup {Op("truncate", <<i>>, <<>>) : i \in 0..(n + 1)}
  \cup {Op("set_len", <<i>>, <<>>) : i \in 0..n}
  \cup {Op("get_raw", <<i>>, <<>>) : i \in 0..(n - 1)}
  \cup {Op("set_raw", <<i, x>>, <<>>) : i \in 0..(n - 1), x \in VALS}
  \cup {Op("extend", <<k>>, q) : k \in {0, 2, 3}, q \in EXTQ}
  \cup {Op("raw_push", <<>>, q) : q \in EXTQ}
  \cup {Op("resize", <<k, x>>, <<>>) : k \in (0..(2 * E)) \cup {n, n + 4 * E, n + 4 * E + 1, n + 5 * E, n + 5 * E + 1, n + 6 * E}, x \in VALS}
  \cup {Op("reserve", <<k>>, <<>>) : k \in (0..E) \cup {2 * E, 2 * E + 1}}
  \cup {Op("shrink", <<>>, <<>>)}
  \cup {Op("retain", <<>>, <<x>>) : x \in VALS} \cup {Op("retain", <<>>, <<>>), Op("retain", <<>>, ALLQ)}
  \cup {Op("for_each", <<k>>, <<>>) : k \in 0..(P - 1)}
  \cup {Op("any", <<>>, ALLQ), Op("all", <<>>, ALLQ)}
  \cup {Op2("split_off", <<i>>, <<>>, <<>>, 0) : i \in 0..(n + 1)}
  \cup {Op2("split_off", <<i>>, <<>>, <<>>, 1) : i \in 0..n}
  \cup {Op2("append", <<>>, x[1], x[2], m) : x \in PARTS, m \in {0, 1}}
  \cup {Op2("extend_iter", <<>>, x[1], x[2], 0) : x \in PARTS}
  \cup {Op2("clone", <<>>, <<>>, <<>>, 1)}
  \cup {Op2("eq", <<>>, p, <<>>, 0) : p \in Twin(s)} \cup {Op2("eq", <<>>, Abs(s), Rep(P - 1, E), 0)}

\* block-wise; a block whose elements are read holds as many as the one that is written
BlockOpsOf(s) ==
  LET u == Blk(s.n)  Held(k) == Min2(E, s.n - k * E) IN
  {Op("blk_zero", <<k>>, <<>>) : k \in 0..(u - 1)}
  \cup {Op("blk_copy", <<x[1], x[2]>>, <<>>) : x \in {y \in (0..(u - 1)) \X (0..(u - 1)) : Held(y[2]) >= Held(y[1])}}
  \cup {Op("pad", <<k, j>>, <<>>) : k \in {1, 2}, j \in (-1)..(u - 1)}
  \cup {Op2("transplant", <<>>, <<>>, <<>>, m) : m \in {0, 1}}

\* from nothing
Starts == {Op("from_elem", <<x, k>>, <<>>) : x \in VALS, k \in (0..(E + 1)) \cup {4 * E, 4 * E + 1, 5 * E, 5 * E + 1, 6 * E, 6 * E + 1}}
          \cup {Op("from_slice", <<>>, q) : q \in EXTQ}

Ops(s) == OpsOf(s) \cup (IF s = EMPTY THEN Starts ELSE {}) \cup (IF RAWBLOCKS THEN BlockOpsOf(s) ELSE {})

\* The storage backs all elements, and blocks are blocks
Backed(s) == Blk(s.n) <= Len(s.bl) /\ \A k \in 1..Len(s.bl) : s.bl[k] \in 0..FULL

Event(op) == [o |-> op.o, v |-> 0, w |-> 1, a |-> op.a, q |-> op.q]
Partner(op) == Built(op.p, op.j)
\* Every operation does what VecSem says
Refines(op, s, x) ==
  LET e == Event(op)  st == [k \in {0, 1} |-> IF k = 0 THEN Abs(s) ELSE op.p] IN
  /\ Backed(x.s) /\ Backed(x.t)
  /\ IF op.o \in QOPS THEN x.r = QuerySem(e, st) /\ x.s = s
     ELSE LET y == IF op.o \in BlockOps THEN BlockSem(IF op.o = "blk_copy" THEN [e EXCEPT !.w = 0] ELSE e, st, E, 0) ELSE Sem(e, st, P) IN
          /\ x.r = y.r
          /\ Abs(x.s) = y.st[0] /\ Abs(x.t) = y.st[1]
  /\ (op.o = "reserve") => Len(x.s.bl) * E >= s.n + op.a[1]
  /\ (op.o = "shrink") => Len(x.s.bl) = Blk(s.n)
  \* memory: never more than a constant number of blocks beyond what was asked for
  /\ \/ Len(x.s.bl) <= Max2(Len(s.bl), Max2(Blk(x.s.n), IF op.o = "reserve" THEN Blk(s.n + op.a[1]) ELSE 0) + 2)
     \/ op.o \in {"pad", "transplant"}

Main(op, x) == IF op.m = 1 THEN x.t ELSE x.s
Fields(s) == [k \in 1..(Len(s.bl) * E) |-> Fld(s.bl[((k - 1) \div E) + 1], ((k - 1) % E) * W)]
Runs(f) == Cardinality({k \in 1..(Len(f) - 1) : f[k] # f[k + 1]})
Small(s) == Len(s.bl) <= MAXB \/ (Len(s.bl) <= LONGB /\ Runs(Fields(s)) <= 1)

Init == v = EMPTY
Next == \E op \in Ops(v) : LET x == Main(op, Impl(op, v, Partner(op))) IN Small(x) /\ v' = x
Spec == Init /\ [][Next]_v

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o "_" \o Cat(SubSeq(q, 2, Len(q)))
Key(s) == Cat(s.bl) \o "n" \o ToString(s.n)
\* one line: the state, and << operation, arguments, q, partner, junk, main, result, contents after, other's contents after, next state >>
Row(op, x) == <<op.o, op.a, op.q, op.p, op.j, op.m, x.r, Abs(Main(op, x)), Abs(IF op.m = 1 THEN x.s ELSE x.t),
                IF Small(Main(op, x)) THEN Key(Main(op, x)) ELSE "", Len(Main(op, x).bl)>>
Good ==
  LET T == {<<op, Impl(op, v, Partner(op))>> : op \in Ops(v)} IN
  /\ TRUE = (\A t \in T : Refines(t[1], v, t[2]))
  /\ OUT # "" => ndJsonSerialize(OUT \o "/" \o Key(v) \o ".json", <<[key |-> Key(v), c |-> Abs(v), t |-> SetToSeq({Row(t[1], t[2]) : t \in T})]>>)
=============================================================================
