---------------------------- MODULE SharedTrace ----------------------------
(* Recorded histories of two vectors (or sets) that threads change in turn  *)
(* (w = 0 by the owner, 1 lent to, 2 given to another thread), seal, read   *)
(* together (w = 5: one at a time in a chosen order, with iterators that    *)
(* may change hands; w = 6: all at once) and compare with the seal.         *)
EXTENDS Shared, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, obj, it, sealed
vars == <<tid, l, obj, it, sealed, con, rd>>
Ev == Traces[tid].e[l]
H  == Traces[tid].h
NoIt == << FALSE, <<>> >>

Ans(c, o, a) == Answer(H.set, obj[c], obj[3 - c], o, a, H.txt)
OnIter == {"open", "own", "next", "back", "nth", "left", "give"}
\* an iterator with s left to yield: [x |-> result, s |-> what is left then]
IterStep(o, a, s) ==
  CASE o = "next" -> IF s = <<>> THEN [x |-> <<None>>, s |-> s] ELSE [x |-> <<Head(s)>>, s |-> Tail(s)]
    [] o = "back" -> IF s = <<>> THEN [x |-> <<None>>, s |-> s] ELSE [x |-> <<Last(s)>>, s |-> Front(s)]
    [] o = "nth"  -> IF a < Len(s) THEN [x |-> <<At(s, a)>>, s |-> Tail0(s, a + 1)] ELSE [x |-> <<None>>, s |-> <<>>]
    [] o = "left" -> [x |-> <<Len(s)>>, s |-> s]

Step ==
  LET e == Ev IN
  CASE e.w \in {0, 1, 2} ->
         LET n == Change(H.set, obj[e.c], obj[3 - e.c], e.o, e.i, e.a) IN
         /\ TRUE = (e.r = <<n.x>>)
         /\ obj' = [obj EXCEPT ![e.c] = n.q]
         /\ UNCHANGED <<it, sealed>>
    [] e.w = 9 /\ e.o = "seal" -> sealed' = e.r /\ it' = [t \in 1..H.thr |-> NoIt] /\ UNCHANGED obj
    \* reading changes nothing that can be seen of the storage
    [] e.w = 9 /\ e.o = "same" -> TRUE = (e.r = sealed) /\ UNCHANGED <<obj, it, sealed>>
    [] e.w = 5 /\ e.o \notin OnIter ->
         /\ TRUE = (Len(e.r) = Len(Ans(e.c, e.o, e.a)) /\ e.r = Ans(e.c, e.o, e.a))
         /\ UNCHANGED <<obj, it, sealed>>
    [] e.w = 5 /\ e.o \in {"open", "own"} -> TRUE = (e.r = <<>>) /\ it' = [it EXCEPT ![e.t] = <<TRUE, Rest(H.set, obj[e.c])>>] /\ UNCHANGED <<obj, sealed>>
    [] e.w = 5 /\ e.o = "give" -> TRUE = (e.r = <<>>) /\ it' = [it EXCEPT ![e.a] = it[e.t], ![e.t] = NoIt] /\ UNCHANGED <<obj, sealed>>
    [] e.w = 5 /\ e.o \in {"next", "back", "nth", "left"} ->
         LET n == IterStep(e.o, e.a, it[e.t][2]) IN
         /\ TRUE = (it[e.t][1] /\ e.r = n.x)
         /\ it' = [it EXCEPT ![e.t][2] = n.s]
         /\ UNCHANGED <<obj, sealed>>
    \* all at once: every repetition of every operation had the answer
    [] e.w = 6 ->
         /\ TRUE = (Len(e.r) = H.thr /\
              \A t \in 1..H.thr : \A k \in 1..Len(e.r[t]) :
                LET c == e.r[t][k]  x == Ans(c.c, c.o, c.a) IN Len(c.r) = 1 /\ Len(c.r[1]) = Len(x) /\ c.r[1] = x)
         /\ UNCHANGED <<obj, it, sealed>>

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ obj = IF H.set THEN << {}, {} >> ELSE << <<>>, <<>> >>
         /\ it = [t \in 1..H.thr |-> NoIt] /\ sealed = <<>>
         /\ con = <<>> /\ rd = <<>>
TNext == \/ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ UNCHANGED <<tid, con, rd>>
         \/ l > Len(Traces[tid].e) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
