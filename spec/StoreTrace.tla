----------------------------- MODULE StoreTrace -----------------------------
(* C22.  Values of one type in every container of the three crates: packed  *)
(* vectors of each storage, a set, packed wrappers.  Values are positions   *)
(* in a palette (h.txt); h.dis are their discriminants.  A container holds  *)
(* exactly what was put into it, and the raw numbers it exposes are the     *)
(* discriminants of what it holds.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, con          \* con[c]: sequence of palette positions, or (set) set of them
vars == <<tid, l, con>>
Ev == Traces[tid].e[l]
H  == Traces[tid].h
IsSet(c) == H.con[c] = "set"

Done == -2        \* "no result"
\* [x |-> result, q |-> contents afterwards]
Op(o, c, i, t, q) ==
  CASE o = "push" -> [x |-> Done, q |-> Append(q, t)]
    [] o = "set"  -> [x |-> Done, q |-> [q EXCEPT ![i + 1] = t]]
    [] o = "ins"  -> [x |-> Done, q |-> SubSeq(q, 1, i) \o <<t>> \o SubSeq(q, i + 1, Len(q))]
    [] o = "del"  -> [x |-> q[i + 1] - 1, q |-> SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))]
    [] o = "pop"  -> IF q = <<>> THEN [x |-> -3, q |-> q] ELSE [x |-> q[Len(q)] - 1, q |-> SubSeq(q, 1, Len(q) - 1)]
    [] o = "put"  -> [x |-> IF t \in q THEN 0 ELSE 1, q |-> q \cup {t}]
    [] o = "rm"   -> [x |-> IF t \in q THEN 1 ELSE 0, q |-> q \ {t}]
    [] o = "has"  -> [x |-> IF t \in q THEN 1 ELSE 0, q |-> q]

\* what a reader sees: v palette positions (from 0), raw the raw numbers
ReadOK(c, q, v, raw) ==
  IF IsSet(c)
  THEN /\ Len(v) = Cardinality(q) /\ {v[k] + 1 : k \in 1..Len(v)} = q
       /\ Len(raw) = Len(v) /\ \A k \in 1..Len(v) : raw[k] = H.dis[v[k] + 1]
  ELSE /\ Len(v) = Len(q) /\ \A k \in 1..Len(v) : v[k] + 1 = q[k]
       /\ raw = <<>> \/ (Len(raw) = Len(q) /\ \A k \in 1..Len(q) : raw[k] = H.dis[q[k]])

Step ==
  LET e == Ev IN
  /\ TRUE = (e.r[1] \in {"v", "c"} /\ e.o # "make")
  /\ LET n == Op(e.o, e.c, e.i, e.t, con[e.c]) IN
     /\ TRUE = (e.r[2] = n.x)
     /\ TRUE = (e.r[1] = "c" => ReadOK(e.c, n.q, e.r[3], e.r[4]))
     /\ con' = [con EXCEPT ![e.c] = n.q]

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ con = [c \in 1..Len(H.con) |-> IF IsSet(c) THEN {} ELSE <<>>]
Next == \/ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ tid' = tid
        \/ l > Len(Traces[tid].e) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
