------------------------------- MODULE Giant -------------------------------
(* What vectors and sets mean when their positions pass 2^32, where TLC's   *)
(* integers end.  A position is a pair <<p \div M, p % M>>; a vector is its  *)
(* length, the value of most elements and the positions of the others (the  *)
(* two values used are 0 and 1); a set is the set of its members.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS M,      \* base of the pairs: 2^20 for recordings
          Short   \* vectors shorter than that, and than M, may be listed
Num(p)     == p[1] * M + p[2]      \* of a short distance
PLt(p, q)  == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
PLe(p, q)  == p = q \/ PLt(p, q)
PAdd(p, q) == << p[1] + q[1] + (p[2] + q[2]) \div M, (p[2] + q[2]) % M >>
PSub(p, q) == IF p[2] >= q[2] THEN << p[1] - q[1], p[2] - q[2] >> ELSE << p[1] - q[1] - 1, p[2] + M - q[2] >>
P0 == << 0, 0 >>
P1 == << 0, 1 >>
PN(k) == << k \div M, k % M >>

Listed(n)    == n[1] < 1000 /\ Num(n) < Short
Vec(n, d)    == [n |-> n, d |-> d, ex |-> {}]
Val(s, p)    == IF p \in s.ex THEN 1 - s.d ELSE s.d
Has(s, p)    == PLt(p, s.n)
\* the element at p becomes x; more elements; fewer
Put(s, p, x) == [s EXCEPT !.ex = IF x = s.d THEN s.ex \ {p} ELSE s.ex \cup {p}]
More(s, l)   == [s EXCEPT !.n = PAdd(s.n, PN(Len(l))),
                          !.ex = s.ex \cup {PAdd(s.n, PN(k - 1)) : k \in {k \in 1..Len(l) : l[k] # s.d}}]
Cut(s, n)    == [s EXCEPT !.n = n, !.ex = {p \in s.ex : PLt(p, n)}]
Lst(s)       == PSub(s.n, P1)
Ins(s, p, x) == Put([s EXCEPT !.n = PAdd(s.n, P1), !.ex = {IF PLt(q, p) THEN q ELSE PAdd(q, P1) : q \in s.ex}], p, x)
Del(s, p)    == [s EXCEPT !.n = Lst(s), !.ex = {IF PLt(q, p) THEN q ELSE PSub(q, P1) : q \in s.ex \ {p}}]
Swap(s, p, q) == Put(Put(s, p, Val(s, q)), q, Val(s, p))
Resize(s, n, x) == IF PLe(n, s.n) THEN Cut(s, n)
                   ELSE IF x = s.d THEN [s EXCEPT !.n = n]
                   ELSE [s EXCEPT !.n = n, !.ex = s.ex \cup {PAdd(s.n, PN(k)) : k \in 0 .. Num(PSub(n, s.n)) - 1}]
\* t after s; either may be what is short
Join(s, t) == IF s.d = t.d THEN [n |-> PAdd(s.n, t.n), d |-> s.d, ex |-> s.ex \cup {PAdd(s.n, p) : p \in t.ex}]
              ELSE IF Listed(s.n)
              THEN [n |-> PAdd(s.n, t.n), d |-> t.d,
                    ex |-> {p \in {PN(k) : k \in 0 .. Num(s.n) - 1} : Val(s, p) # t.d} \cup {PAdd(s.n, p) : p \in t.ex}]
              ELSE [n |-> PAdd(s.n, t.n), d |-> s.d,
                    ex |-> s.ex \cup {PAdd(s.n, p) : p \in {p \in {PN(k) : k \in 0 .. Num(t.n) - 1} : Val(t, p) # s.d}}]
Joinable(s, t) == s.d = t.d \/ (Listed(s.n)) \/ (Listed(t.n))
From(s, p) == [n |-> PSub(s.n, p), d |-> s.d, ex |-> {PSub(q, p) : q \in {q \in s.ex : PLe(p, q)}}]
\* is there an x; is there nothing else
AllOne(s)  == \* every element is an exception: only of short vectors
  Listed(s.n) /\ Cardinality(s.ex) = Num(s.n)
AnyIs(s, x)  == IF x = s.d THEN ~ AllOne(s) ELSE s.ex # {}
AllAre(s, x) == IF x = s.d THEN s.ex = {} ELSE AllOne(s)
Same(s, t)   == s.n = t.n /\ (IF s.d = t.d THEN s.ex = t.ex ELSE Listed(s.n) /\ \A k \in 0 .. Num(s.n) - 1 : Val(s, PN(k)) = Val(t, PN(k)))

\* all of those become x; only the x are kept; how many there are
Fill(s, ps, x) == [s EXCEPT !.ex = IF x = s.d THEN s.ex \ ps ELSE s.ex \cup ps]
Least(k, p)    == IF PLt(p, PN(k)) THEN Num(p) ELSE k
HowMany(s, x)  == LET c == PN(Cardinality(s.ex)) IN IF x = s.d THEN PSub(s.n, c) ELSE c
Keep(s, x)     == Vec(HowMany(s, x), x)

(* An iterator of s over the positions from a up to before b, turned round  *)
(* or not; its calls c = <<kind, how far>>.                                  *)
ItCall(s, i, c) ==
  LET left == PSub(i.b, i.a)
      k == IF c[1] \in {2, 3} THEN c[2] ELSE P0
      back == (c[1] \in {1, 3}) # i.rev IN
  IF c[1] >= 4 THEN [x |-> left, i |-> i]
  ELSE IF ~ PLt(k, left) THEN [x |-> << 2 >>, i |-> [i EXCEPT !.a = i.b]]
  ELSE IF back THEN LET e == PSub(PSub(i.b, k), P1) IN [x |-> << Val(s, e) >>, i |-> [i EXCEPT !.b = e]]
  ELSE LET e == PAdd(i.a, k) IN [x |-> << Val(s, e) >>, i |-> [i EXCEPT !.a = PAdd(e, P1)]]
RECURSIVE Calls(_, _, _)
Calls(s, i, cs) == IF cs = <<>> THEN <<>> ELSE LET n == ItCall(s, i, Head(cs)) IN
  n.x \o (IF Head(cs)[1] = 5 THEN <<>> ELSE Calls(s, n.i, Tail(cs)))   \* count() takes the iterator

OutOf(e, s) ==
  CASE e.o \in {"set", "remove", "swap_remove"} -> ~ Has(s, e.p)
    [] e.o \in {"insert", "split_off"} -> PLt(s.n, e.p)
    [] e.o = "swap" -> ~ Has(s, e.p) \/ ~ Has(s, e.q)
    [] OTHER -> FALSE

R(x, v) == [r |-> x, v |-> v]
One(vs, i, s) == [vs EXCEPT ![i] = s]
\* answer and vectors after an operation
GSem(e, vs) ==
  LET s == vs[e.v]  t == vs[e.w]  B(b) == << IF b THEN 1 ELSE 0 >> IN
  IF OutOf(e, s) THEN R(<< 3 >>, vs) ELSE
  CASE e.o = "from_elem" -> R(<<>>, One(vs, e.v, Vec(e.p, e.x)))
    [] e.o = "push"   -> R(<<>>, One(vs, e.v, More(s, << e.x >>)))
    [] e.o = "extend" -> R(<<>>, One(vs, e.v, More(s, e.l)))
    [] e.o = "pop"    -> IF s.n = P0 THEN R(<< 2 >>, vs) ELSE R(<< Val(s, Lst(s)) >>, One(vs, e.v, Cut(s, Lst(s))))
    [] e.o = "get"    -> R(<< IF Has(s, e.p) THEN Val(s, e.p) ELSE 2 >>, vs)
    [] e.o = "set"    -> R(<<>>, One(vs, e.v, Put(s, e.p, e.x)))
    [] e.o = "swap"   -> R(<<>>, One(vs, e.v, Swap(s, e.p, e.q)))
    [] e.o = "swap_remove" -> R(<< Val(s, e.p) >>, One(vs, e.v, Cut(Swap(s, e.p, Lst(s)), Lst(s))))
    [] e.o = "insert" -> R(<<>>, One(vs, e.v, Ins(s, e.p, e.x)))
    [] e.o = "remove" -> R(<< Val(s, e.p) >>, One(vs, e.v, Del(s, e.p)))
    [] e.o = "truncate" -> R(<<>>, One(vs, e.v, IF PLt(e.p, s.n) THEN Cut(s, e.p) ELSE s))
    [] e.o = "resize" -> R(<<>>, One(vs, e.v, Resize(s, e.p, e.x)))
    [] e.o = "append" -> R(<<>>, [vs EXCEPT ![e.v] = Join(s, t), ![e.w] = Vec(P0, 0)])
    [] e.o = "split_off" -> R(<<>>, [vs EXCEPT ![e.v] = Cut(s, e.p), ![e.w] = From(s, e.p)])
    [] e.o = "clone"  -> R(<<>>, One(vs, e.w, s))
    [] e.o = "reserve" -> R(<< 1 >>, vs)
    [] e.o = "shrink" -> R(<<>>, vs)
    [] e.o = "graw"   -> R(<< Val(s, e.p) >>, vs)
    [] e.o = "sraw"   -> R(<<>>, One(vs, e.v, Put(s, e.p, e.x)))
    [] e.o = "len"    -> R(<<>>, One(vs, e.v, Cut(s, e.p)))
    \* Num(e.q) elements a block, the first of them at e.p
    [] e.o = "block"  -> R(<<>>, One(vs, e.v, Fill(s, {PAdd(e.p, PN(k)) : k \in 0 .. Num(e.q) - 1}, e.x)))
    [] e.o = "elems"  -> R([k \in 1 .. Least(Num(e.q), PSub(s.n, e.p)) |-> Val(s, PAdd(e.p, PN(k - 1)))], vs)
    [] e.o = "retain" -> R(<<>>, One(vs, e.v, Keep(s, e.x)))
    [] e.o = "flip"   -> R(<<>>, One(vs, e.v, [s EXCEPT !.d = 1 - s.d]))
    [] e.o = "again"  -> R(<<>>, One(vs, e.w, s))
    [] e.o = "extend_from" -> R(<<>>, One(vs, e.v, Join(s, t)))
    [] e.o \in {"count", "back"} -> R(HowMany(s, e.x), vs)
    [] e.o = "any"    -> R(B(AnyIs(s, e.x)), vs)
    [] e.o = "all"    -> R(B(AllAre(s, e.x)), vs)
    [] e.o = "eq"     -> R(B(Same(s, t)), vs)
    [] e.o = "iter"   -> R(Calls(s, [a |-> P0, b |-> s.n, rev |-> FALSE], e.s), vs)
    [] e.o = "rev"    -> R(Calls(s, [a |-> P0, b |-> s.n, rev |-> TRUE], e.s), vs)
    [] e.o = "into"   -> R(Calls(s, [a |-> P0, b |-> s.n, rev |-> FALSE], e.s), One(vs, e.v, Vec(P0, 0)))

(* Sets of such values                                                      *)
RECURSIVE Inc(_)
Inc(ms) == IF ms = {} THEN <<>> ELSE LET p == CHOOSE p \in ms : \A q \in ms : PLe(p, q) IN p \o Inc(ms \ {p})
SSem(e, vs) ==
  LET s == vs[e.v]  t == vs[e.w]  B(b) == << IF b THEN 1 ELSE 0 >> IN
  CASE e.o = "s_insert" -> R(B(e.p \notin s), One(vs, e.v, s \cup {e.p}))
    [] e.o = "s_remove" -> R(B(e.p \in s), One(vs, e.v, s \ {e.p}))
    [] e.o = "s_contains" -> R(B(e.p \in s), vs)
    [] e.o = "s_len"   -> R(PN(Cardinality(s)), vs)
    [] e.o = "s_clear" -> R(<<>>, One(vs, e.v, {}))
    [] e.o = "s_clone" -> R(<<>>, One(vs, e.w, s))
    [] e.o = "s_shrink" -> R(<<>>, vs)
    [] e.o = "s_iter"  -> R(Inc(s), vs)
    [] e.o = "s_union" -> R(Inc(s \cup t), vs)
    [] e.o = "s_inter" -> R(Inc(s \cap t), vs)
    [] e.o = "s_diff"  -> R(Inc(s \ t), vs)
    [] e.o = "s_symd"  -> R(Inc((s \ t) \cup (t \ s)), vs)
    [] e.o = "s_union_with" -> R(<<>>, One(vs, e.v, s \cup t))
    [] e.o = "s_inter_with" -> R(<<>>, One(vs, e.v, s \cap t))
    [] e.o = "s_diff_with" -> R(<<>>, One(vs, e.v, s \ t))
    [] e.o = "s_subset" -> R(B(s \subseteq t), vs)
    [] e.o = "s_disjoint" -> R(B(s \cap t = {}), vs)
    [] e.o = "s_eq"    -> R(B(s = t), vs)
=============================================================================
