----------------------------- MODULE GiantTrace -----------------------------
(* Recorded histories of two vectors, or sets, of more than 2^32 bits.      *)
(* After every operation the length of either, and the value at every       *)
(* position ever touched, around the ends and where a position cut to 32    *)
(* bits would lie, are as the model says (2: no element there).             *)
EXTENDS Giant, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, vs
vars == <<tid, l, vs>>
Ev == Traces[tid].e[l]
Set == Traces[tid].h.mod = "set"

Seen(o, s) ==
  IF Set THEN /\ o.n = PN(Cardinality(s))
              /\ \A k \in 1..Len(o.g) : o.g[k][3] = IF << o.g[k][1], o.g[k][2] >> \in s THEN 1 ELSE 0
  ELSE /\ o.n = s.n
       /\ PLe(s.n, o.m) /\ PLe(s.n, o.c)
       /\ \A k \in 1..Len(o.g) :
            LET p == << o.g[k][1], o.g[k][2] >> IN o.g[k][3] = IF Has(s, p) THEN Val(s, p) ELSE 2

Step ==
  LET e == Ev
      n == IF Set THEN SSem(e, vs) ELSE GSem(e, vs) IN
  /\ TRUE = (/\ Len(e.r) = Len(n.r) /\ e.r = n.r
             /\ Len(e.st) = 2
             /\ \A k \in 1..2 : Seen(e.st[k], n.v[k])
             \* storage that shrink_to_fit leaves: a block at most more than needed
             /\ e.o = "shrink" => PLe(e.st[e.v].m, PAdd(n.v[e.v].n, PN(256))))
  /\ vs' = n.v

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ vs = IF Set THEN << {}, {} >> ELSE << Vec(P0, 0), Vec(P0, 0) >>
TNext == \/ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
         \/ l > Len(Traces[tid].e) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
