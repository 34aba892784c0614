------------------------------ MODULE SetTrace ------------------------------
(* C18, C19, C20, C27-C29.  Recorded histories of four EnumSets against SetSem.  The *)
(* state follows the membership observed after each event; rule "set"       *)
(* demands that it is the one SetSem computes, rules "algebra" and "order"  *)
(* judge queries against it.                                                *)
EXTENDS SetSem, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Rules  == ToSet(ndJsonDeserialize(IOEnv.CHECK_FILE)[1].rules)
VARIABLES tid, l, s, hw         \* hw: the largest discriminant a slot may still have room for
vars == <<tid, l, s, hw>>
Ev == Traces[tid].e[l]
H  == Traces[tid].h

\* membership as observed after the event: what changed (d), 0-based slots
Observed(e) == [k \in 1..4 |-> IF \E x \in 1..Len(e.d) : e.d[x][1] + 1 = k
                              THEN Range0(e.d[CHOOSE x \in 1..Len(e.d) : e.d[x][1] + 1 = k][2]) ELSE s[k]]

\* caller code that panics: an iterator, or a conversion of the element type
BadOps == {"extendbad", "collectbad"}
Fired(e) == (e.o \in BadOps /\ e.r = <<"p">>) \/ ("f" \in DOMAIN e /\ e.f = 1)
Sizes(e, t) == \A k \in 1..4 : e.z[k] = <<Cardinality(t[k]), IF t[k] = {} THEN 1 ELSE 0>>
\* what an interrupted operation on slot i may leave there: [low, high] in the order of sets
Torn(S, o, a, n) ==
  CASE o = "extendbad" -> [low |-> S, high |-> S \cup {a[k] : k \in 1..n}]
    [] o = "extend"    -> [low |-> S, high |-> S \cup Range0(a)]
    [] o = "insert"    -> [low |-> S, high |-> S \cup {a[1]}]
    [] o = "remove"    -> [low |-> S \ {a[1]}, high |-> S]
    [] OTHER           -> [low |-> S, high |-> S]
FaultRule(e) ==
  LET t == Observed(e)  i == e.i + 1 IN
  /\ e.r # <<"x">> /\ Sizes(e, t)
  /\ IF Fired(e)
     THEN /\ e.r = <<"p">>
          /\ \A k \in 1..4 : k # i => t[k] = s[k]
          /\ LET b == Torn(s[i], e.o, e.a, IF e.o \in BadOps THEN e.q[1][2] ELSE 0) IN b.low \subseteq t[i] /\ t[i] \subseteq b.high
     ELSE IF e.o \in BadOps THEN \* the items sufficed
            e.q[1][2] = Len(e.a) /\ t = [s EXCEPT ![i] = (IF e.o = "extendbad" THEN s[i] ELSE {}) \cup Range0(e.a)]
     ELSE IF e.o \in Edits THEN LET n == Edit(s, e.o, i, e.j + 1, e.a) IN e.r = n.r /\ t = n.s
     ELSE t = s

SetRule(e) ==
  IF e.o \in Edits
  THEN LET n == Edit(s, e.o, e.i + 1, e.j + 1, e.a) IN
       /\ e.r = n.r
       /\ Observed(e) = n.s
       /\ \A k \in 1..4 : e.z[k] = <<Cardinality(n.s[k]), IF n.s[k] = {} THEN 1 ELSE 0>>
  ELSE /\ e.d = <<>> /\ e.r # <<"x">>
       \* no value outside the palette is ever put into a set
       /\ e.o = "scan" => e.r[1] = "q" /\ e.r[2][1] = 0 /\ e.r[2][2] = 0
       /\ \A k \in 1..4 : e.z[k] = <<Cardinality(s[k]), IF s[k] = {} THEN 1 ELSE 0>>

AlgebraRule(e) ==
  CASE e.o \in Iters -> e.r[1] = "i" /\ ScriptOK(Ascending(Ranged(s, e.o, e.i + 1, e.j + 1)), e.q, e.r[2], 1)
    [] e.o \in Relations -> e.r = <<"b", IF Related(s, e.o, e.i + 1, e.j + 1) THEN 1 ELSE 0>>
    [] OTHER -> TRUE

OrderRule(e) ==
  CASE e.o = "order" -> e.r[1] = "o" /\ OrderOK(s, e.r[2], e.r[3], e.r[4], e.r[5], e.r[6])
    [] e.o = "debug" -> e.r[1] = "t" /\ e.r[2] = DebugText(s[e.i + 1], H.txt) /\ e.r[3] = PrettyText(s[e.i + 1], H.txta)
    [] OTHER -> TRUE

\* ------------------------------------------------------------------ memory
Largest(S) == IF S = {} THEN -1 ELSE H.ds[1 + CHOOSE x \in S : \A y \in S : y <= x]
Max3(a, b) == IF a > b THEN a ELSE b
\* the largest discriminant that slot k may have room for after the event
NewHw(e, t) ==
  LET i == e.i + 1  j == e.j + 1
      N(x) == [hw EXCEPT ![i] = x] IN
  CASE e.o \in {"new", "default"}     -> N(-1)
    [] e.o = "shrink"                 -> N(Largest(t[i]))
    [] e.o \in {"collect", "collectbad"} -> N(Max3(IF e.r = <<"p">> THEN hw[i] ELSE -1, Max3(Len(e.a), Largest(t[i]))))
    [] e.o = "frombits"               -> N(Max3(e.q[1][1], Largest(t[i])))
    [] e.o \in {"extend", "extendbad"} -> N(Max3(hw[i], Max3(Len(e.a), Largest(t[i]))))
    [] e.o = "insert"                 -> N(Max3(hw[i], Largest(t[i])))
    [] e.o \in {"unionw", "interw", "diffw", "symw"} -> N(Max3(hw[i], hw[j]))
    [] e.o = "clone"                  -> [hw EXCEPT ![j] = hw[i]]
    [] e.o = "clonefrom"              -> [hw EXCEPT ![j] = Max3(hw[j], hw[i])]
    [] OTHER                          -> hw
Spare == 2048
MemRule(e, t, h) ==
  /\ e.r \notin {<<"p">>, <<"x">>}
  /\ \A k \in 1..4 : e.c[k][1] <= 4 * (h[k] + 1) + Spare
  /\ \A k \in 1..4 : Largest(t[k]) < 32 * e.c[k][2]
  /\ e.o = "shrink" => e.c[e.i + 1][2] = (Largest(t[e.i + 1]) + 32) \div 32

\* hp = bytes that all sets together hold after the operation, as the allocator counts; "end" = all sets dropped
RECURSIVE Room(_, _)
Room(h, k) == IF k = 0 THEN 0 ELSE (4 * (h[k] + 1) + Spare) \div 8 + Room(h, k - 1)
HeapRule(e, h) ==
  /\ e.r # <<"x">>
  /\ (e.o = "end" /\ "hp" \in DOMAIN e) => e.hp = 0
  /\ (e.o # "end" /\ "hp" \in DOMAIN e) => e.hp >= 0 /\ e.hp <= Room(h, 4)

Step ==
  LET e == Ev IN
  /\ TRUE = ("set" \in Rules => SetRule(e))
  /\ TRUE = ("algebra" \in Rules => AlgebraRule(e))
  /\ TRUE = ("order" \in Rules => OrderRule(e))
  /\ TRUE = ("faults" \in Rules => FaultRule(e))
  /\ hw' = IF Rules \cap {"mem", "heap"} # {} THEN NewHw(e, Observed(e)) ELSE hw
  /\ TRUE = ("mem" \in Rules => MemRule(e, Observed(e), hw'))
  /\ TRUE = ("heap" \in Rules => HeapRule(e, hw'))
  /\ s' = Observed(e)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = << {}, {}, {}, {} >> /\ hw = <<-1, -1, -1, -1>>
Next == \/ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ tid' = tid
        \/ l > Len(Traces[tid].e) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
