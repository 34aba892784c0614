------------------------------ MODULE TornSem ------------------------------
(* C26.  What an operation may leave behind when one of the element type's  *)
(* own conversions (to_discr, from_discr) panics in the middle of it.       *)
(*                                                                          *)
(* TornOK(e, st, obs, P) is the requirement, by which recordings of the     *)
(* real code are judged (rule "conv" of VecTrace): st the contents before,  *)
(* obs after, P the number of values in use.                                *)
EXTENDS VecSem

From(t, S)  == Elems(t) \subseteq S
\* t is s and some of the items of q, in order: the earlier ones
Extended(t, s, q) ==
  /\ Len(t) >= Len(s) /\ Len(t) <= Len(s) + Len(q)
  /\ Head0(t, Len(s)) = s
  /\ Tail0(t, Len(s)) = Head0(q, Len(t) - Len(s))
TornOK(e, st, obs, P) ==
  LET s == st[e.v]  t == obs[e.v]  n == Len(st[e.v])  a == e.a
      Same == t = s
      Vain == \A i \in DOMAIN st : i # e.v => obs[i] = st[i]        \* only e.v may have changed
  IN
  CASE e.o = "push"        -> Vain /\ (Same \/ t = Append(s, a[1]))
    [] e.o = "pop"         -> Vain /\ (Same \/ (n > 0 /\ t = Head0(s, n - 1)))
    [] e.o = "set"         -> Vain /\ (Same \/ (a[1] < n /\ t = Put(s, a[1], a[2])))
    [] e.o = "extend"      -> Vain /\ Extended(t, s, e.q)
    [] e.o = "extend_iter" -> Vain /\ Extended(t, s, st[e.w])
    [] e.o = "resize"      -> Vain /\ Extended(t, s, Rep(a[2], Max2(a[1] - n, 0)))
    \* on the way elements may be elsewhere, twice or gone
    [] e.o = "insert"      -> Vain /\ Len(t) - n \in {0, 1} /\ From(t, Elems(s) \cup {a[2]})
    [] e.o \in {"remove", "swap_remove"} -> Vain /\ n - Len(t) \in {0, 1} /\ From(t, Elems(s))
    [] e.o = "swap"        -> Vain /\ Len(t) = n /\ From(t, Elems(s))
    [] e.o = "retain"      -> Vain /\ Len(t) <= n /\ From(t, Elems(s))
    [] e.o = "for_each"    -> Vain /\ Len(t) = n /\ \A i \in 1..n : t[i] \in {s[i], (s[i] + a[1]) % P}
    \* the other party: its elements stay or arrive, none comes from elsewhere
    [] e.o \in {"append", "split_off"} -> /\ From(t, Elems(s) \cup Elems(st[e.w])) /\ From(obs[e.w], Elems(s) \cup Elems(st[e.w]))
                                          /\ \A i \in DOMAIN st \ {e.v, e.w} : obs[i] = st[i]
    [] e.o = "extend_into" -> /\ Extended(t, s, st[e.w]) /\ obs[e.w] = <<>>
                              /\ \A i \in DOMAIN st \ {e.v, e.w} : obs[i] = st[i]
    [] e.o = "into_vec"    -> Vain /\ t = <<>>
    \* queries, copies and constructions that do not come about
    [] OTHER               -> \A i \in DOMAIN st : obs[i] = st[i]
=============================================================================
