------------------------------ MODULE GiantRef ------------------------------
(* The description of long vectors (Giant), with pairs in base 3, means the *)
(* same as the plain sequences of VecSem and IterSem: both take every step  *)
(* together, give the same answers and stay equal.                         *)
EXTENDS Giant, FiniteSets, SequencesExt
CONSTANTS MaxN
V == INSTANCE VecSem
I == INSTANCE IterSem
VARIABLES gs, ps
vars == <<gs, ps>>

Plain(s) == [k \in 1..Num(s.n) |-> Val(s, PN(k - 1))]
E0 == [o |-> "", v |-> 1, w |-> 2, p |-> P0, q |-> P0, x |-> 0, l |-> <<>>, s |-> <<>>]
Ps == {PN(k) : k \in 0 .. MaxN + 1}
Lists == {<<>>, << 0 >>, << 1, 0 >>, << 1, 1, 0 >>}
Sides == {<< 1, 2 >>, << 2, 1 >>}
Events ==
  UNION {
    {[E0 EXCEPT !.o = o, !.v = d[1], !.w = d[2], !.p = p, !.x = x] : o \in {"set", "insert", "from_elem", "resize"}, d \in Sides, p \in Ps, x \in 0..1},
    {[E0 EXCEPT !.o = o, !.v = d[1], !.w = d[2], !.p = p] : o \in {"get", "remove", "swap_remove", "truncate", "split_off"}, d \in Sides, p \in Ps},
    {[E0 EXCEPT !.o = "swap", !.v = d[1], !.w = d[2], !.p = p, !.q = q] : d \in Sides, p \in Ps, q \in Ps},
    {[E0 EXCEPT !.o = "push", !.v = d[1], !.w = d[2], !.x = x] : d \in Sides, x \in 0..1},
    {[E0 EXCEPT !.o = "extend", !.v = d[1], !.w = d[2], !.l = q] : d \in Sides, q \in Lists},
    {[E0 EXCEPT !.o = o, !.v = d[1], !.w = d[2]] : o \in {"pop", "append", "clone"}, d \in Sides}}
\* those that VecSem says in other words
Swept ==
  \A d \in Sides : \A x \in 0..1 :
    LET s == gs[d[1]]  p == ps[d[1]]
        After(e) == Plain(GSem([E0 EXCEPT !.v = d[1], !.w = d[2], !.o = e, !.x = x], gs).v[d[1]]) IN
    /\ After("retain") = SelectSeq(p, LAMBDA y : y = x)
    /\ After("flip") = [k \in 1..Len(p) |-> 1 - p[k]]
    /\ Num(HowMany(s, x)) = Cardinality({k \in 1..Len(p) : p[k] = x})
    /\ Joinable(s, gs[d[2]]) => After("extend_from") = p \o ps[d[2]]
    /\ \A a \in 0 .. Len(p) : \A b \in 0 .. Len(p) - a :
         Plain(Fill(s, {PN(k) : k \in a .. a + b - 1}, x)) = [k \in 1..Len(p) |-> IF k > a /\ k <= a + b THEN x ELSE p[k]]

\* the same event for VecSem, and its answers in the form used here
Arg(e) ==
  [o |-> e.o, v |-> e.v, w |-> e.w, q |-> e.l,
   a |-> CASE e.o = "from_elem" -> << e.x, Num(e.p) >>
           [] e.o = "push" -> << e.x >>
           [] e.o = "swap" -> << Num(e.p), Num(e.q) >>
           [] OTHER -> << Num(e.p), e.x >>]
Flat(r) == CASE r[1] = "u" -> <<>> [] r[1] = "n" -> << 2 >> [] r[1] = "p" -> << 3 >> [] r[1] \in {"s", "v"} -> << r[2] >>

Fits(e) == LET n == GSem(e, gs).v IN \A k \in 1..2 : Num(n[k].n) <= MaxN
\* which descriptions are kept: the same sequence may have two
Step == \E e \in Events :
  /\ e.o = "append" => Joinable(gs[e.v], gs[e.w])
  /\ Fits(e)
  /\ gs' = GSem(e, gs).v
  /\ ps' = V!Sem(Arg(e), ps, 2).st
\* the answers, in every state and of every event that is possible there
Answers == \A e \in Events : (e.o # "append" /\ Fits(e)) => GSem(e, gs).r = Flat(V!Sem(Arg(e), ps, 2).r)
Agree == \A k \in 1..2 : Plain(gs[k]) = ps[k]
Queries ==
  \A d \in Sides : \A x \in 0..1 :
    /\ AnyIs(gs[d[1]], x) = V!AnyIs(ps[d[1]], x)
    /\ AllAre(gs[d[1]], x) = V!AllAre(ps[d[1]], x)
    /\ Same(gs[d[1]], gs[d[2]]) = (ps[d[1]] = ps[d[2]])

\* two calls of an iterator, forwards and turned round
Kinds == {<< 0, P0 >>, << 1, P0 >>, << 4, P0 >>} \cup {<< k, PN(n) >> : k \in {2, 3}, n \in 0..2}
Code(k, rev) == IF k = 4 THEN 5 ELSE IF rev THEN (CASE k = 0 -> 1 [] k = 1 -> 0 [] k = 2 -> 3 [] k = 3 -> 2) ELSE k
IFlat(r) == CASE r[1] = "n" -> << 2 >> [] r[1] = "s" -> << r[2] >> [] r[1] = "l" -> PN(r[2])
RECURSIVE IAll(_, _, _, _)
IAll(s, it, cs, rev) ==
  IF cs = <<>> THEN <<>>
  ELSE LET n == I!IterStep(s, it, Code(cs[1][1], rev), Num(cs[1][2])) IN IFlat(n.r) \o IAll(s, n.it, Tail(cs), rev)
Iterators ==
  \A c1 \in Kinds : \A c2 \in Kinds : \A rev \in BOOLEAN :
    Calls(gs[1], [a |-> P0, b |-> gs[1].n, rev |-> rev], << c1, c2, << 4, P0 >> >>) =
    IAll(ps[1], I!IWin(0, Len(ps[1])), << c1, c2, << 4, P0 >> >>, rev)

Init == gs = << Vec(P0, 0), Vec(P0, 0) >> /\ ps = << <<>>, <<>> >>
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
