---------------------------- MODULE ValuesTrace ----------------------------
(* C14.  The iterator over all values of a type with N values is the window *)
(* [pos, N) of an iterator over 0, 1, .., N-1.  Up to three iterators are   *)
(* live at once (clones are independent).  Recorded histories of the real   *)
(* iterator must be behaviours of this specification; numbers are exact     *)
(* (BigNat), so that types with up to 2^64 - 1 values are covered.          *)
EXTENDS BigNat, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, pos       \* pos[i]: <<>> no iterator, <<p>> position p
vars == <<tid, l, pos>>

Ev == Traces[tid].e[l]
N  == Traces[tid].h.n

RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - BLimb(b, i) - c IN
       IF d < 0 THEN <<d + BB>> \o BSubC(a, b, i + 1, 1) ELSE <<d>> \o BSubC(a, b, i + 1, 0)
BSub(a, b) == BNorm(BSubC(a, b, 1, 0))          \* a >= b
BMin(a, b) == IF BLt(a, b) THEN a ELSE b
BInt(a) == IF a = <<>> THEN 0 ELSE a[1] + (IF Len(a) > 1 THEN a[2] * BB ELSE 0)    \* small numbers

Left(p) == BSub(N, p)
Succ(p) == BAdd(p, BOf(1))
None == <<"n">>
Some(x) == <<"s", x>>

\* items p, p + s, p + 2 s, .. at most m of them
RECURSIVE Items(_, _, _)
Items(p, s, m) == IF m = 0 \/ ~BLt(p, N) THEN <<>> ELSE <<p>> \o Items(BAdd(p, s), s, m - 1)
Limit == 2001       \* more are not recorded

\* result of call o(a, b) at position p, and the next position (<<>>: consumed)
Call(o, p, a, b) ==
  CASE o = "next" -> IF BLt(p, N) THEN [r |-> Some(p), p |-> <<Succ(p)>>] ELSE [r |-> None, p |-> <<p>>]
    [] o = "nth"  -> IF BLt(a, Left(p)) THEN [r |-> Some(BAdd(p, a)), p |-> <<Succ(BAdd(p, a))>>] ELSE [r |-> None, p |-> <<N>>]
    [] o = "len"  -> [r |-> <<"l", Left(p)>>, p |-> <<p>>]
    [] o = "count" -> [r |-> <<"l", Left(p)>>, p |-> <<>>]
    [] o = "last" -> [r |-> IF BLt(p, N) THEN Some(BPred(N)) ELSE None, p |-> <<>>]
    [] o = "take" -> [r |-> <<"q", Items(p, BOf(1), BInt(a))>>, p |-> <<BAdd(p, BMin(a, Left(p)))>>]
    [] o = "skip" -> [r |-> <<"q", Items(BAdd(p, a), BOf(1), BInt(b))>>, p |-> <<>>]
    [] o = "step" -> [r |-> <<"q", Items(p, Succ(a), BInt(b))>>, p |-> <<>>]
    \* up to the value a; to the end if that was before
    [] o \in {"position", "find", "any"} ->
         LET there == ~ BLt(a, p) /\ BLt(a, N) IN
         [r |-> CASE o = "any" -> <<"l", BOf(IF there THEN 1 ELSE 0)>>
                  [] ~ there -> None
                  [] o = "position" -> Some(BSub(a, p))
                  [] o = "find" -> Some(a),
          p |-> << IF there THEN Succ(a) ELSE N >>]
    [] o \in {"fold", "collect", "each"} -> [r |-> <<"q", Items(p, BOf(1), Limit)>>, p |-> <<>>]

Step ==
  LET e == Ev  i == e.i + 1  j == ((e.i + 1) % 3) + 1 IN
  /\ TRUE = (CASE e.o = "new" -> e.r = <<"u">>
               [] e.o \in {"clone", "copy"} -> e.r = <<"u">> /\ pos[i] # <<>>
               [] OTHER -> pos[i] # <<>> /\ e.r = Call(e.o, pos[i][1], e.a, e.b).r)
  /\ pos' = CASE e.o = "new" -> [pos EXCEPT ![i] = << <<>> >>]
              [] e.o \in {"clone", "copy"} -> [pos EXCEPT ![j] = pos[i]]
              [] OTHER -> [pos EXCEPT ![i] = Call(e.o, pos[i][1], e.a, e.b).p]
  \* exact size hints
  /\ TRUE = (\A k \in 1..3 : e.h[k] = IF pos'[k] = <<>> THEN <<>> ELSE <<Left(pos'[k][1]), Left(pos'[k][1])>>)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ pos = << <<>>, <<>>, <<>> >>
Next == \/ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ tid' = tid
        \/ l > Len(Traces[tid].e) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
