------------------------------- MODULE VecSem -------------------------------
(* The meaning of every EnumVec operation on a set of vectors ("slots"),    *)
(* each an ordinary sequence of values 0 .. P-1 (P = number of palette      *)
(* values).  One definition, shared by                                      *)
(*   VecImpl  - the block-level model of the implementation refines it,     *)
(*   VecLts   - its labelled transition graph is walked on the real code,   *)
(*   VecTrace - recordings of the real code are validated against it.       *)
(*                                                                          *)
(* An event e is a record: o = operation, v = slot, w = second slot,        *)
(* a = integer arguments, q = sequence argument.                            *)
(* Sem(e, st, P) = [r |-> result, st |-> new contents of all slots].        *)
(* Results: <<"u">> unit, <<"p">> panic, <<"n">> None, <<"s", x>> Some(x),  *)
(*          <<"v", x>> a value, <<"b", 0/1>> a truth value, <<"q", s>> seq. *)
EXTENDS SeqOps

U        == <<"u">>
PANIC    == <<"p">>
NONE     == <<"n">>
SOME(x)  == <<"s", x>>
VAL(x)   == <<"v", x>>
BOOL(b)  == <<"b", IF b THEN 1 ELSE 0>>
SEQ(s)   == <<"q", s>>

Res(r, st)        == [r |-> r, st |-> st]
Upd(st, v, s, r)  == [r |-> r, st |-> [st EXCEPT ![v] = s]]
Upd2(st, v, s, w, t, r) == [r |-> r, st |-> [st EXCEPT ![v] = s, ![w] = t]]

\* for_each(|x| x := (x + k) mod P)
MapRot(s, k, P) == [i \in 1..Len(s) |-> (s[i] + k) % P]

EditOps  == {"push", "pop", "get", "set", "swap", "swap_remove", "insert", "remove", "truncate", "clear"}
BulkOps  == {"new", "default", "with_capacity", "from_elem", "macro_rep", "from_slice", "from_vec", "collect", "macro_list",
             "clone", "clone_from", "extend", "extend_iter", "extend_into", "resize", "append", "split_off", "retain",
             "for_each", "to_vec", "into_vec"}
CapOps   == {"reserve", "shrink", "reserve_huge", "again"}
RawOps   == {"get_raw", "set_raw", "raw_push", "set_len"}
BlockOps == {"blk_copy", "blk_zero", "transplant", "pad"}
SizeOps  == {"len"}

\* Operations whose position argument can be out of range, and when it is
OutOfRange(e, st) ==
  LET n == Len(st[e.v]) IN
  CASE e.o \in {"get", "set", "remove", "swap_remove"} -> e.a[1] >= n
    [] e.o \in {"insert", "split_off"}                 -> e.a[1] > n
    [] e.o = "swap"                                    -> e.a[1] >= n \/ e.a[2] >= n
    [] e.o = "pop"                                     -> n = 0
    [] e.o = "truncate"                                -> e.a[1] >= n
    [] e.o = "resize"                                  -> e.a[1] = n
    [] OTHER                                           -> FALSE

Sem(e, st, P) ==
  LET v == e.v  w == e.w  a == e.a  s == st[e.v]  n == Len(st[e.v]) IN
  CASE e.o = "push"        -> Upd(st, v, Append(s, a[1]), U)
    [] e.o = "pop"         -> IF n = 0 THEN Res(NONE, st)
                              ELSE Upd(st, v, SubSeq(s, 1, n - 1), SOME(s[n]))
    [] e.o = "get"         -> IF a[1] < n THEN Res(SOME(At(s, a[1])), st) ELSE Res(NONE, st)
    [] e.o = "set"         -> IF a[1] < n THEN Upd(st, v, Put(s, a[1], a[2]), U) ELSE Res(PANIC, st)
    [] e.o = "insert"      -> IF a[1] <= n THEN Upd(st, v, Ins(s, a[1], a[2]), U) ELSE Res(PANIC, st)
    [] e.o = "remove"      -> IF a[1] < n THEN Upd(st, v, Del(s, a[1]), VAL(At(s, a[1]))) ELSE Res(PANIC, st)
    [] e.o = "swap"        -> IF a[1] < n /\ a[2] < n THEN Upd(st, v, Swp(s, a[1], a[2]), U) ELSE Res(PANIC, st)
    [] e.o = "swap_remove" -> IF a[1] < n THEN Upd(st, v, SwpDel(s, a[1]), VAL(At(s, a[1]))) ELSE Res(PANIC, st)
    [] e.o = "truncate"    -> Upd(st, v, Trunc(s, a[1]), U)
    [] e.o = "clear"       -> Upd(st, v, <<>>, U)
    [] e.o = "len"         -> Res(<<"l", n, IF n = 0 THEN 1 ELSE 0>>, st)
    \* construction and bulk
    [] e.o \in {"new", "default", "with_capacity"}    -> Upd(st, v, <<>>, U)
    [] e.o \in {"from_elem", "macro_rep"}  -> Upd(st, v, Rep(a[1], a[2]), U)
    [] e.o \in {"from_slice", "from_vec", "collect", "macro_list"} -> Upd(st, v, e.q, U)
    [] e.o \in {"clone", "clone_from"}     -> Upd(st, w, s, U)          \* w := clone of v
    [] e.o = "extend"      -> Upd(st, v, s \o e.q, U)
    [] e.o = "extend_iter" -> Upd(st, v, s \o st[w], U)                 \* v.extend(w.iter())
    [] e.o = "extend_into" -> Upd2(st, v, s \o st[w], w, <<>>, U)       \* v.extend(take(w))
    [] e.o = "resize"      -> Upd(st, v, Resz(s, a[1], a[2]), U)
    [] e.o = "append"      -> Upd2(st, v, s \o st[w], w, <<>>, U)
    [] e.o = "split_off"   -> IF a[1] <= n THEN Upd2(st, v, Head0(s, a[1]), w, Tail0(s, a[1]), U) ELSE Res(PANIC, st)
    [] e.o = "retain"      -> Upd(st, v, Keep(s, Elems(e.q)), <<"c", s>>)     \* result: what the closure was shown
    [] e.o = "for_each"    -> Upd(st, v, MapRot(s, a[1], P), <<"c", s>>)
    [] e.o = "to_vec"      -> Res(SEQ(s), st)
    [] e.o = "into_vec"    -> Upd(st, v, <<>>, SEQ(s))
    \* capacity
    \* again: a small operation and its undoing, many times
    [] e.o \in {"reserve", "shrink", "again"} -> Res(U, st)
    [] e.o = "reserve_huge"          -> Res(PANIC, st)
    \* raw access
    [] e.o = "get_raw"     -> Res(VAL(At(s, a[1])), st)
    [] e.o = "set_raw"     -> Upd(st, v, Put(s, a[1], a[2]), U)
    [] e.o = "raw_push"    -> Upd(st, v, s \o e.q, U)
    [] e.o = "set_len"     -> Upd(st, v, Trunc(s, a[1]), U)             \* only used to shorten

\* Block-wise access, E elements a block, z the value with discriminant 0
BlockSem(e, st, E, z) ==
  LET s == st[e.v]  n == Len(s)  k == e.a[1]
      InBlock(i) == i > k * E /\ i <= (k + 1) * E
  IN
  CASE e.o = "blk_copy"   -> Upd(st, e.v, [i \in 1..n |-> IF InBlock(i) THEN st[e.w][i - k * E + e.a[2] * E] ELSE s[i]], U)
    [] e.o = "blk_zero"   -> Upd(st, e.v, [i \in 1..n |-> IF InBlock(i) THEN z ELSE s[i]], U)
    [] e.o = "transplant" -> Upd(st, e.w, s, U)
    [] e.o = "pad"        -> Res(U, st)

\* Slots an operation may change
Footprint(e) ==
  CASE e.o \in {"clone", "clone_from", "transplant"}                               -> {e.w}
    [] e.o \in {"append", "split_off", "extend_into"}                -> {e.v, e.w}
    [] OTHER                                                         -> {e.v}
=============================================================================
