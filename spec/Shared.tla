------------------------------- MODULE Shared -------------------------------
(* C25.  What several threads see of a vector or a set that they share.     *)
(*                                                                          *)
(* Kinds: vectors hold sequences, sets hold sets of palette positions       *)
(* (numbered from 0, in the order of their discriminants).  Answer gives    *)
(* the result of a reading operation from the contents alone; Change the    *)
(* result and the contents after a changing one.                            *)
(*                                                                          *)
(* The model: readers take any number of steps (a walk over the elements is *)
(* one step per element) interleaved in any order; a change needs that      *)
(* nobody reads.  Checked: whatever the interleaving, every walk ends with  *)
(* exactly the contents, i.e. with Answer.                                  *)
EXTENDS SeqOps, FiniteSetsExt, TLC

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o Asc(S \ {m})
Bit(b) == IF b THEN 1 ELSE 0
RECURSIVE Join(_, _)
Join(txt, s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN txt[s[1] + 1] ELSE txt[s[1] + 1] \o ", " \o Join(txt, Tail(s))

None == -3
Unit == -2
\* q: contents, p: contents of the other object, t: palette position picked by the argument a
VecAnswer(q, p, o, a, t, txt) ==
  CASE o \in {"get", "raw"} -> << IF a < Len(q) THEN At(q, a) ELSE None >>
    [] o = "len"   -> << Len(q), Bit(q = <<>>) >>
    [] o = "any"   -> << Bit(AnyIs(q, t)) >>
    [] o = "all"   -> << Bit(AllAre(q, t)) >>
    [] o \in {"list", "walk"} -> q
    [] o = "clone" -> Append(q, t)
    [] o = "eq"    -> << Bit(q = p), Bit(q # p) >>
    [] o = "hash"  -> << 1 >>
    [] o = "debug" -> << "[" \o Join(txt, q) \o "]" >>
SetAnswer(q, p, o, a, t, txt) ==
  CASE o = "has"   -> << Bit(t \in q) >>
    [] o = "len"   -> << Cardinality(q), Bit(q = {}) >>
    [] o \in {"list", "walk", "bits"} -> Asc(q)
    [] o = "uni"   -> Asc(q \cup p)
    [] o = "int"   -> Asc(q \cap p)
    [] o = "dif"   -> Asc(q \ p)
    [] o = "sym"   -> Asc((q \ p) \cup (p \ q))
    [] o = "rel"   -> << Bit(q \subseteq p), Bit(p \subseteq q), Bit(q \cap p = {}) >>
    [] o = "clone" -> Asc(q \cup {t})
    [] o = "eq"    -> << Bit(q = p), Bit(q # p) >>
    [] o = "hash"  -> << 1 >>
    [] o = "debug" -> << "{" \o Join(txt, Asc(q)) \o "}" >>
Answer(set, q, p, o, a, txt) ==
  LET t == a % Len(txt) IN IF set THEN SetAnswer(q, p, o, a, t, txt) ELSE VecAnswer(q, p, o, a, t, txt)
\* what an iterator has yet to yield
Rest(set, q) == IF set THEN Asc(q) ELSE q

Change(set, q, p, o, i, t) ==
  IF set THEN
    CASE o = "put" -> [x |-> Bit(t \notin q), q |-> q \cup {t}]
      [] o = "rm"  -> [x |-> Bit(t \in q), q |-> q \ {t}]
      [] o = "clr" -> [x |-> Unit, q |-> {}]
      [] o = "uniw" -> [x |-> Unit, q |-> q \cup p]
      [] o = "intw" -> [x |-> Unit, q |-> q \cap p]
      [] o = "difw" -> [x |-> Unit, q |-> q \ p]
      [] o = "symw" -> [x |-> Unit, q |-> (q \ p) \cup (p \ q)]
  ELSE
    CASE o = "push" -> [x |-> Unit, q |-> Append(q, t)]
      [] o = "set"  -> [x |-> Unit, q |-> Put(q, i, t)]
      [] o = "ins"  -> [x |-> Unit, q |-> Ins(q, i, t)]
      [] o = "del"  -> [x |-> At(q, i), q |-> Del(q, i)]
      [] o = "pop"  -> IF q = <<>> THEN [x |-> None, q |-> q] ELSE [x |-> Last(q), q |-> Front(q)]
      [] o = "cut"  -> [x |-> Unit, q |-> Trunc(q, i)]
      [] o = "fill" -> [x |-> Unit, q |-> Resz(q, i, t)]
      [] o = "ext"  -> [x |-> Unit, q |-> q \o p]

\* ------------------------------------------------------------- the model
CONSTANTS Threads, Palette, MaxLen
VARIABLES con,     \* contents of the shared vector
          rd       \* rd[t]: <<>> or [rest, seen]: what its walk has yet to yield and has yielded
mvars == <<con, rd>>
Idle == [rest |-> <<>>, seen |-> <<>>, on |-> FALSE]
MInit == con = <<>> /\ rd = [t \in Threads |-> Idle]
NobodyReads == \A t \in Threads : ~rd[t].on
Write == /\ NobodyReads
         /\ \E o \in {"push", "set", "ins", "del", "pop", "cut", "fill"}, i \in 0..MaxLen, t \in Palette :
              /\ TRUE = (o \in {"set", "del"} => i < Len(con))
              /\ TRUE = (o = "ins" => i <= Len(con))
              /\ LET n == Change(FALSE, con, <<>>, o, i, t) IN Len(n.q) <= MaxLen /\ con' = n.q
         /\ UNCHANGED rd
Open(t) == /\ ~rd[t].on
           /\ rd' = [rd EXCEPT ![t] = [rest |-> Rest(FALSE, con), seen |-> <<>>, on |-> TRUE]]
           /\ UNCHANGED con
Walk(t) == /\ rd[t].on /\ rd[t].rest # <<>>
           /\ rd' = [rd EXCEPT ![t] = [rest |-> Tail(rd[t].rest), seen |-> Append(rd[t].seen, Head(rd[t].rest)), on |-> TRUE]]
           /\ UNCHANGED con
Close(t) == /\ rd[t].on /\ rd[t].rest = <<>> /\ rd' = [rd EXCEPT ![t] = Idle] /\ UNCHANGED con
Give(t, u) == /\ rd[t].on /\ ~rd[u].on /\ rd' = [rd EXCEPT ![u] = rd[t], ![t] = Idle] /\ UNCHANGED con
MNext == Write \/ \E t \in Threads : Open(t) \/ Walk(t) \/ Close(t) \/ \E u \in Threads \ {t} : Give(t, u)
MSpec == MInit /\ [][MNext]_mvars
\* a finished walk has seen the contents, an unfinished one a beginning of them
WalksSeeTheContents == \A t \in Threads : rd[t].on => rd[t].seen \o rd[t].rest = Answer(FALSE, con, <<>>, "walk", 0, <<"a">>)
=============================================================================
