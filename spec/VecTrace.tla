----------------------------- MODULE VecTrace -----------------------------
(* Trace validation: every line of the recording (one trace, made by the    *)
(* real code) must be a behaviour of VecSem.  A trace is                    *)
(* [h |-> header, e |-> events]; an event logs the operation, its           *)
(* arguments, its result and the contents of every vector whose contents    *)
(* changed, all seen through the public interface.                          *)
(*                                                                          *)
(* The rules a run enforces are named in the file CHECK_FILE.  An operation *)
(* that no enforced rule speaks about is accepted as observed, so that each *)
(* rule is judged on the contents that are really there and the violation   *)
(* of one does not show up as a violation of another.                       *)
(*                                                                          *)
(* A trace is accepted iff all its events are consumed; otherwise TLC finds *)
(* a deadlock, and tid and l name the trace and the event.                  *)
EXTENDS TornSem, IterSem, Density, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Check  == ndJsonDeserialize(IOEnv.CHECK_FILE)[1].rules   \* a sequence of strings
Rule(x) == \E k \in 1..Len(Check) : Check[k] = x

Slots == 0..3

VARIABLES
  tid,   \* which trace
  l,     \* next event
  st,    \* contents of the vectors, as observed
  hw,    \* largest size held or requested per vector (rule dens)
  rel,   \* vectors that were party to an operation on two vectors (rule indep)
  flt    \* vectors on which caller code failed (rule panic)
vars == <<tid, l, st, hw, rel, flt>>

Ev == Traces[tid].e[l]
Hd == Traces[tid].h

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st = [s \in Slots |-> <<>>]
  /\ hw = [s \in Slots |-> 0]
  /\ rel = {} /\ flt = {}

\* Observed contents after the event: logged vectors changed, the others did not
\* A change is << slot, contents >>, or << slot, kept at the front, kept at the end, runs between >>
RECURSIVE Runs(_, _, _)
Runs(q, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN Rep(q[lo][1], q[lo][2])
  ELSE LET mid == (lo + hi) \div 2 IN Runs(q, lo, mid) \o Runs(q, mid + 1, hi)
Changed(s, c) ==
  IF Len(c) = 2 THEN c[2]
  ELSE Head0(s, c[2]) \o Runs(c[4], 1, Len(c[4])) \o Tail0(s, Len(s) - c[3])
RECURSIVE Apply(_, _, _)
Apply(f, d, k) == IF k > Len(d) THEN f ELSE Apply([f EXCEPT ![d[k][1]] = Changed(f[d[k][1]], d[k])], d, k + 1)
Obs(e) == Apply(st, e.d, 1)

FaultOps == {"retain_panic", "for_each_panic", "extend_panic", "extend_lie", "collect_panic", "collect_lie"}
QueryOps == {"any", "all", "any_scan", "all_scan", "eq", "dbg", "iter", "len", "get", "get_raw", "to_vec", "hash"}
PairOps  == {"clone", "clone_from", "append", "split_off", "extend_iter", "extend_into"}
UseOps   == {"push", "pop", "get", "set", "insert", "remove", "len", "truncate", "extend"}

\* the process died in this operation (or asked for an absurd amount of memory)
Died(e) == e.r \in {<<"x">>, <<"m">>}

\* the result and the contents are those of VecSem
Conforms(e, obs) ==
  LET x == Sem(e, st, Hd.p) IN
  /\ e.r = x.r
  /\ \A s \in Footprint(e) : obs[s] = x.st[s]

\* ------------------------------------------------------------------ rules
EditRule(e, obs) ==
  (Rule("edit") /\ e.o \in (EditOps \cup {"len"}) /\ ~OutOfRange(e, st)) => Conforms(e, obs)

BulkRule(e, obs) ==
  (Rule("bulk") /\ e.o \in (BulkOps \cup {"len"}) /\ ~OutOfRange(e, st)) => Conforms(e, obs)

RawRule(e, obs) ==
  (Rule("raw") /\ e.o \in (RawOps \cup {"get"}) /\ ~OutOfRange(e, st)) => Conforms(e, obs)

\* reading and writing whole blocks, and everything that follows
BlocksRule(e, obs) ==
  Rule("blocks") =>
    /\ ~Died(e)
    /\ (e.o \in BlockOps) =>
         LET x == BlockSem(e, st, Epb(Hd.B, Bits(Hd.nk, Hd.nd)), Hd.z) IN
         /\ e.r = x.r
         /\ \A s \in Slots : obs[s] = x.st[s]
    /\ (e.v \in rel /\ e.o \in (EditOps \cup BulkOps \cup {"len"}) /\ ~OutOfRange(e, st)) => Conforms(e, obs)
    /\ (e.v \in rel /\ e.o = "any") => e.r = SEQ([k \in 1..Len(e.q) |-> IF AnyIs(st[e.v], e.q[k]) THEN 1 ELSE 0])
    /\ (e.v \in rel /\ e.o = "all") => e.r = SEQ([k \in 1..Len(e.q) |-> IF AllAre(st[e.v], e.q[k]) THEN 1 ELSE 0])
    /\ (e.v \in rel /\ e.o = "eq") => e.r[2] = (IF st[e.v] = st[e.w] THEN 1 ELSE 0)

\* refused operations change nothing
OobRule(e, obs) ==
  Rule("oob") =>
    /\ OutOfRange(e, st) => Conforms(e, obs) /\ obs[e.v] = st[e.v]
    \* growing loses nothing
    /\ (e.o = "resize" /\ e.a[1] >= Len(st[e.v])) =>
          /\ e.r = U
          /\ Len(obs[e.v]) = e.a[1]
          /\ Head0(obs[e.v], Len(st[e.v])) = st[e.v]

QueryRule(e) ==
  /\ (Rule("query") /\ e.o \in {"any", "all"}) =>
    /\ e.r[1] = "q"
    /\ \A k \in 1..Len(e.q) :
         (e.r[2][k] = 1) <=> (IF e.o = "any" THEN AnyIs(st[e.v], e.q[k]) ELSE AllAre(st[e.v], e.q[k]))
  \* values outside the palette, as many as r[2][2]: how many the answer was yes for. No element is one of them, unless an operation went wrong.
  /\ (Rule("query") /\ e.o \in {"any_scan", "all_scan"} /\ \A k \in 1..Len(st[e.v]) : st[e.v][k] < Hd.p) =>
       e.r[1] = "q" /\ e.r[2][1] = (IF e.o = "all_scan" /\ Len(st[e.v]) = 0 THEN e.r[2][2] ELSE 0)

\* texts of elements lo..hi, each followed by a separator
RECURSIVE Join(_, _, _, _, _, _)
Join(s, txt, pre, post, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN pre \o txt[s[lo] + 1] \o post
  ELSE LET mid == (lo + hi) \div 2 IN Join(s, txt, pre, post, lo, mid) \o Join(s, txt, pre, post, mid + 1, hi)
ListText(s, h, alt) ==
  LET n == Len(s) IN
  IF n = 0 THEN "[]"
  ELSE IF alt THEN "[\n" \o Join(s, h.txta, "    ", ",\n", 1, n) \o "]"
  ELSE "[" \o Join(s, h.txt, "", ", ", 1, n - 1) \o h.txt[s[n] + 1] \o "]"

\* palette values only: elements outside it have no text
Known(s) == \A k \in 1..Len(s) : s[k] < Hd.p

EqRule(e) ==
  (Rule("eq") /\ e.o \in {"eq", "dbg"}) =>
    /\ ~Died(e)
    /\ (e.o = "eq") =>
          LET same == st[e.v] = st[e.w] IN
          /\ e.r[1] = "e"
          /\ e.r[2] = (IF same THEN 1 ELSE 0)           \* v == w
          /\ e.r[3] = (IF same THEN 1 ELSE 0)           \* w == v
          /\ e.r[4] = (IF same THEN 0 ELSE 1)           \* v != w
          /\ (same => e.r[5] = 1)                       \* the same data hashed
    /\ (e.o = "dbg" /\ Known(st[e.v])) =>
          /\ e.r = U
          /\ e.t = ListText(st[e.v], Hd, e.a[1] = 1)

IterRule(e) ==
  (Rule("iter") /\ e.o = "iter") =>
     /\ e.r[1] = "i"
     /\ Len(e.r[2]) = Len(e.q)
     /\ IterScriptOK(st[e.v], IWin(0, Len(st[e.v])), e.q, e.r[2], 1)

\* Caller code that panics or lies; a[1] = index of the call that panics.
SubsetOf(s, S) == \A k \in 1..Len(s) : s[k] \in S
PanicRule(e, obs) ==
  LET s == st[e.v]  t == obs[e.v]  n == Len(s) IN
  Rule("panic") =>
    /\ (e.o \in FaultOps => ~Died(e))
    /\ (e.o = "retain_panic" =>
          IF e.a[1] >= n THEN e.r = <<"u">> /\ t = Keep(s, Elems(e.q))
          ELSE /\ e.r = PANIC
               /\ Len(t) <= n /\ Len(t) >= n - e.a[1]
               \* what had not been reached is still there, in order, at the end
               /\ SubSeq(t, Len(t) - (n - e.a[1]) + 1, Len(t)) = Tail0(s, e.a[1])
               /\ SubsetOf(t, Elems(s)))
    /\ (e.o = "for_each_panic" =>
          IF e.a[1] >= n THEN e.r = <<"u">> /\ t = MapRot(s, e.a[2], Hd.p)
          ELSE /\ e.r = PANIC
               /\ Len(t) = n
               /\ \A k \in 1..n : \/ t[k] = s[k]
                                  \/ k <= e.a[1] + 1 /\ t[k] = (s[k] + e.a[2]) % Hd.p)
    /\ (e.o = "extend_panic" =>       \* the iterator panics after delivering q
          e.r = PANIC /\ t = s \o e.q)
    /\ (e.o = "extend_lie" =>         \* the iterator delivers q but its size hint is wrong
          \/ e.r = U /\ t = s \o e.q
          \/ e.r = PANIC /\ \E k \in 0..Len(e.q) : t = s \o SubSeq(e.q, 1, k))
    /\ (e.o = "collect_panic" => e.r = PANIC /\ t = s)
    /\ (e.o = "collect_lie" => \/ e.r = U /\ t = e.q
                               \/ e.r = PANIC /\ t = s)
    \* usable afterwards
    /\ (e.v \in flt /\ e.o \in UseOps /\ ~OutOfRange(e, st)) => Conforms(e, obs)

\* Nobody else changes; all parties remain usable.
IndepRule(e, obs) ==
  Rule("indep") =>
    /\ \A s \in Slots \ (IF e.o \in QueryOps THEN {} ELSE Footprint(e)) : obs[s] = st[s]
    \* both parties hold what they should
    /\ (e.o \in PairOps /\ ~OutOfRange(e, st)) => Conforms(e, obs)
    /\ (e.v \in rel /\ e.o \in UseOps /\ ~OutOfRange(e, st)) => Conforms(e, obs)

\* ---------------------------------------------------- memory and capacity
\* m = << <<slot, length, storage blocks, capacity>>, ... >> after the operation
EPB == Epb(Hd.B, Bits(Hd.nk, Hd.nd))
Asked(e, obs) ==                  \* the size an operation had to provide for
  CASE e.o \in {"with_capacity", "reserve"}  -> Len(obs[e.v]) + e.a[1]
    [] e.o \in {"extend_lie", "extend_panic", "collect_lie", "collect_panic"} -> Len(obs[e.v]) + Max2(e.a[1], 0)
    [] e.o = "again" -> Len(obs[e.v]) + 3
    [] OTHER -> 0
Fresh(e) == e.o \in {"new", "default", "with_capacity", "from_elem", "macro_rep", "from_slice", "from_vec", "collect", "macro_list", "into_vec"}
\* Largest size held or requested since the vector was created
NewHw(e, obs) ==
  [s \in Slots |->
     Max2(Len(obs[s]),
       Max2(IF e.o = "clone" /\ s = e.w THEN hw[e.v]
            \* blocks may change hands, or be kept for the new contents
            ELSE IF e.o \in {"append", "extend_into"} /\ s = e.v THEN Max2(Max2(hw[e.v], hw[e.w]), Len(st[e.v]) + Len(st[e.w]))
            ELSE IF e.o = "extend_iter" /\ s = e.v THEN Max2(hw[e.v], Len(st[e.v]) + Len(st[e.w]))
            ELSE IF e.o = "append" /\ s = e.w THEN Max2(hw[e.v], hw[e.w])
            ELSE IF e.o = "clone_from" /\ s = e.w THEN Max2(hw[e.v], hw[e.w])
            ELSE IF e.o = "extend_into" /\ s = e.w THEN 0
            ELSE IF e.o = "split_off" /\ s \in {e.v, e.w} /\ ~OutOfRange(e, st) THEN Max2(hw[e.v], hw[e.w])
            ELSE IF Fresh(e) /\ s = e.v THEN 0
            ELSE hw[s],
            IF s = e.v THEN Asked(e, obs) ELSE 0))]

DensRule(e, obs) ==
  Rule("dens") =>
    /\ e.r # <<"m">>
    /\ (e.o = "shrink" => \A k \in 1..Len(e.m) : e.m[k][1] = e.v => e.m[k][3] = Blocks(e.m[k][2], EPB))
    /\ LET h == NewHw(e, obs) IN
       \A k \in 1..Len(e.m) :
         LET bound == 4 * Blocks(h[e.m[k][1]], EPB) + 64 IN
         /\ e.m[k][3] <= bound
         /\ e.m[k][4] \div EPB <= bound

\* hp = bytes that all vectors together hold after the operation, as the allocator counts; "end" = all vectors dropped
RECURSIVE Room(_, _)
Room(h, s) == (4 * Blocks(h[s], EPB) + 64) * (Hd.B \div 8) + (IF s = 0 THEN 0 ELSE Room(h, s - 1))
HeapRule(e, obs) ==
  Rule("heap") =>
    /\ ~Died(e)
    /\ (e.o = "end" /\ "hp" \in DOMAIN e) => e.hp = 0
    /\ (e.o # "end" /\ "hp" \in DOMAIN e) => e.hp >= 0 /\ e.hp <= Room(NewHw(e, obs), 3)
    \* what is not shared cannot be in anybody else's memory
    /\ \A s \in Slots \ (IF e.o \in QueryOps \cup {"end"} THEN {} ELSE Footprint(e)) : obs[s] = st[s]

CapRule(e, obs) ==
  Rule("cap") =>
    /\ ~Died(e)
    /\ (e.o \in CapOps => Conforms(e, obs))
    /\ \A k \in 1..Len(e.m) :
         /\ e.m[k][3] >= Blocks(e.m[k][2], EPB)       \* storage backs every element
         /\ e.m[k][4] >= e.m[k][2]                    \* capacity() >= len()
         /\ e.m[k][2] = Len(obs[e.m[k][1]])
    /\ (e.o \in {"with_capacity", "reserve"} =>
          \A k \in 1..Len(e.m) : e.m[k][1] = e.v => e.m[k][4] >= Len(obs[e.v]) + e.a[1])
    \* b = << length, capacity >> before the operation
    /\ (e.o = "push" /\ e.b[1] < e.b[2]) =>
          \A k \in 1..Len(e.m) : e.m[k][1] = e.v => e.m[k][4] = e.b[2]

\* a conversion of the element type panicked (e.f[1] conversions were to succeed, e.f[2] = 1: the next one was asked for)
Torn(e) == "f" \in DOMAIN e /\ e.f[2] = 1
ConvRule(e, obs) ==
  Rule("conv") =>
    /\ ~Died(e)
    /\ Torn(e) => e.r = PANIC /\ TornOK(e, st, obs, Hd.p)
    /\ (~Torn(e) /\ (e.v \in flt \/ e.w \in flt) /\ e.o \in (EditOps \cup BulkOps \cup {"len"}) /\ ~OutOfRange(e, st)) => Conforms(e, obs)

\* several storage modules in lockstep: x = one digest of everything observed per module
AgreeRule(e) ==
  Rule("agree") => \A k \in 1..Len(e.x) : e.x[k] = e.x[1]

Step ==
  /\ l <= Len(Traces[tid].e)
  /\ LET e == Ev  obs == Obs(e) IN
       /\ TRUE = ( /\ EditRule(e, obs) /\ BulkRule(e, obs) /\ RawRule(e, obs) /\ OobRule(e, obs) /\ BlocksRule(e, obs)
                   /\ QueryRule(e) /\ EqRule(e) /\ IterRule(e) /\ PanicRule(e, obs)
                   /\ IndepRule(e, obs) /\ DensRule(e, obs) /\ CapRule(e, obs) /\ AgreeRule(e) /\ ConvRule(e, obs) /\ HeapRule(e, obs) )
       /\ st' = obs
       /\ hw' = IF Rule("dens") \/ Rule("heap") THEN NewHw(e, obs) ELSE hw
       /\ rel' = IF (Rule("indep") /\ e.o \in PairOps) \/ (Rule("blocks") /\ e.o \in BlockOps) THEN rel \cup {e.v, e.w} ELSE rel
       /\ flt' = IF Rule("panic") /\ e.o \in FaultOps THEN flt \cup {e.v} ELSE IF Rule("conv") /\ Torn(e) THEN flt \cup Footprint(e) ELSE flt
  /\ l' = l + 1
  /\ UNCHANGED tid

Done == l > Len(Traces[tid].e) /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][Step \/ Done]_vars
=============================================================================
