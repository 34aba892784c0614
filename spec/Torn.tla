-------------------------------- MODULE Torn --------------------------------
(* C26.  The operations as the code performs them, in steps; a conversion   *)
(* is a step that may fail.  Whatever fails, what is left behind is allowed *)
(* by TornSem; if nothing fails, the outcome is that of VecSem.             *)
(* mem: what the storage holds, n: the length; slots behind the length hold *)
(* anything, also what was never an element.  LengthFirst: push as found.   *)
EXTENDS TornSem

CONSTANTS Vals, Foreign, Room, LengthFirst
VARIABLES mem, n, todo, op, pre, state
vars == <<mem, n, todo, op, pre, state>>

Conv     == [k |-> "conv"]
Write(i, x) == [k |-> "write", i |-> i, x |-> x]
SetN(j)  == [k |-> "len", i |-> j]
Put0(c)  == [k |-> "put", c |-> c]           \* block-wise moves: the contents become c
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

Push(m, x)   == IF LengthFirst THEN <<SetN(m + 1), Conv, Write(m + 1, x)>> ELSE <<Conv, SetN(m + 1), Write(m + 1, x)>>
Many(m, q)   == Cat([j \in 1..Len(q) |-> Push(m + j - 1, q[j])])
RECURSIVE Retain(_, _, _, _)
Retain(s, K, get, put) ==
  IF get > Len(s) THEN <<SetN(put - 1)>>
  ELSE <<Conv>> \o (IF s[get] \in K THEN <<Conv, Write(put, s[get])>> \o Retain(s, K, get + 1, put + 1) ELSE Retain(s, K, get + 1, put))

Program(e, s) ==
  LET m == Len(s)  a == e.a IN
  CASE e.o = "push"        -> Push(m, a[1])
    [] e.o = "pop"         -> IF m = 0 THEN <<>> ELSE <<Conv, SetN(m - 1)>>
    [] e.o = "set"         -> <<Conv, Write(a[1] + 1, a[2])>>
    [] e.o = "insert"      -> Push(m, a[2]) \o <<Conv, Put0(Ins(s, a[1], a[2]))>>
    [] e.o = "remove"      -> <<Conv, Put0(Del(s, a[1])), SetN(m - 1)>>
    [] e.o = "swap_remove" -> <<Put0(Swp(s, a[1], m - 1)), Conv, SetN(m - 1)>>
    [] e.o = "extend"      -> Many(m, e.q)
    [] e.o = "resize"      -> IF a[1] > m THEN Many(m, Rep(a[2], a[1] - m)) ELSE <<SetN(a[1])>>
    [] e.o = "retain"      -> Retain(s, Elems(e.q), 1, 1)
    [] e.o = "for_each"    -> Cat([j \in 1..m |-> <<Conv, Conv, Write(j, (s[j] + a[1]) % Cardinality(Vals))>>])

E(o, a, q) == [o |-> o, v |-> 0, w |-> 0, a |-> a, q |-> q]
Calls(m) ==
  {E("push", <<x>>, <<>>) : x \in Vals} \cup {E("pop", <<>>, <<>>)}
  \cup {E("set", <<i, x>>, <<>>) : i \in 0..m-1, x \in Vals}
  \cup {E("insert", <<i, x>>, <<>>) : i \in 0..m, x \in Vals}
  \cup {E(o, <<i>>, <<>>) : o \in {"remove", "swap_remove"}, i \in 0..m-1}
  \cup {E("extend", <<0>>, q) : q \in UNION {[1..j -> Vals] : j \in 0..Room - m}}
  \cup {E("resize", <<j, x>>, <<>>) : j \in 0..Room, x \in Vals}
  \cup {E("retain", <<>>, q) : q \in {<<>>, <<0>>, <<1>>, <<0, 1>>}}
  \cup {E("for_each", <<1>>, <<>>)}

Contents == SubSeq(mem, 1, n)
Init ==
  /\ n \in 0..Room - 1
  /\ mem \in {m \in [1..Room -> Vals \cup {Foreign}] : \A j \in 1..n : m[j] # Foreign}
  /\ op \in Calls(n)
  /\ pre = SubSeq(mem, 1, n)
  /\ todo = Program(op, pre)
  /\ state = "run"
Do(x) ==
  CASE x.k = "conv"  -> UNCHANGED <<mem, n>>
    [] x.k = "len"   -> n' = x.i /\ UNCHANGED mem
    [] x.k = "write" -> mem' = [mem EXCEPT ![x.i] = x.x] /\ UNCHANGED n
    [] x.k = "put"   -> mem' = [j \in 1..Room |-> IF j <= Len(x.c) THEN x.c[j] ELSE mem[j]] /\ UNCHANGED n
Run  == state = "run" /\ todo # <<>> /\ Do(todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<op, pre, state>>
Fail == state = "run" /\ todo # <<>> /\ todo[1].k = "conv" /\ state' = "torn" /\ UNCHANGED <<mem, n, todo, op, pre>>
End  == state = "run" /\ todo = <<>> /\ state' = "end" /\ UNCHANGED <<mem, n, todo, op, pre>>
Stop == state # "run" /\ UNCHANGED vars
Spec == Init /\ [][Run \/ Fail \/ End \/ Stop]_vars

One(s) == [j \in {0} |-> s]
Torn == state = "torn" => TornOK(op, One(pre), One(Contents), Cardinality(Vals))
Whole == state = "end" => Contents = Sem(op, One(pre), Cardinality(Vals)).st[0]
Genuine == state = "torn" => Foreign \notin Elems(Contents)
=============================================================================
