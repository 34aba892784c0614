---------------------------- MODULE PackedTrace ----------------------------
(* C15.  A packed wrapper holds one value of a type with at most 2^w values *)
(* in w bits.  The state is the list of wrappers made so far, as pairs      *)
(* [t |-> text of the value, d |-> its discriminant]; the wrapper gives the *)
(* value back and orders, compares and hashes like the discriminant.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, bag
vars == <<tid, l, bag>>
Ev == Traces[tid].e[l]
H  == Traces[tid].h
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Bit(b) == IF b THEN 1 ELSE 0

CmpOK(a, b, r) ==
  LET c == Sgn(a.d - b.d) IN
  /\ r[1] = c /\ r[2] = c
  /\ r[3] = Bit(c = 0) /\ r[4] = Bit(c # 0)
  /\ r[5] = Bit(c < 0) /\ r[6] = Bit(c <= 0) /\ r[7] = Bit(c > 0) /\ r[8] = Bit(c >= 0)
  /\ c = 0 => r[9] = 1                  \* equal ones hash equally
  /\ (c = 0) <=> (a.t = b.t)            \* and they are equal exactly when the values are

SortOK(ix) ==
  /\ Len(ix) = Len(bag)
  /\ {ix[k] : k \in 1..Len(ix)} = 0..(Len(bag) - 1)
  /\ \A k \in 1..(Len(ix) - 1) : bag[ix[k] + 1].d <= bag[ix[k + 1] + 1].d

Step ==
  LET e == Ev  v == e.r[2] IN
  /\ TRUE = (e.r[1] = "v" /\
       (CASE e.o = "put"  -> v[2] >= 0 /\ v[2] < H.n /\ v[3] = v[1]
          [] e.o = "get"  -> v = bag[e.x + 1].t
          [] e.o = "dup"  -> v = bag[e.x + 1].t
          [] e.o = "size" -> v = H.w \div 8
          [] e.o = "cmp"  -> CmpOK(bag[e.x + 1], bag[e.y + 1], v)
          [] e.o = "sort" -> SortOK(v)))
  /\ bag' = CASE e.o = "put" -> Append(bag, [t |-> v[1], d |-> v[2]])
              [] e.o = "dup" -> Append(bag, bag[e.x + 1])
              [] OTHER -> bag

Init == tid \in 1..Len(Traces) /\ l = 1 /\ bag = <<>>
Next == \/ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ tid' = tid
        \/ l > Len(Traces[tid].e) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
