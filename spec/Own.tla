-------------------------------- MODULE Own --------------------------------
(* C29.  Who owns which allocation.  Vectors (or sets), a consuming         *)
(* iterator and the frame of the operation that runs each own some; an      *)
(* operation allocates, hands over and frees in steps, and at any of them   *)
(* caller code may panic, whereupon the frame and the iterator are dropped. *)
(* Whatever happens, every allocation has exactly one owner, none is freed  *)
(* twice or used after it was freed, and dropping everything frees all.     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Vecs, Mem, Bug    \* Bug: "" or the name of a way to get it wrong
Frame == 100
Iter  == 101
Owners == Vecs \cup {Frame, Iter}

VARIABLES own,   \* owner -> set of allocations
          live,  \* allocations that were made and not freed
          todo,  \* what remains of the running operation
          bad    \* something was freed twice or used when free
vars == <<own, live, todo, bad>>

St(k, a, b) == [k |-> k, a |-> a, b |-> b]
Alloc(a)    == St("alloc", a, a)         \* a gets a new one
Free(a)     == St("free", a, a)          \* whatever a owns is freed
Move(a, b)  == St("move", a, b)          \* b gets what a owned
Read(a)     == St("read", a, a)
Lose(a)     == St("lose", a, a)          \* defects: forgotten / owned twice
Alias(a, b) == St("alias", a, b)
Call        == St("call", Frame, Frame)  \* caller code, which may panic

\* growing: a new allocation, the contents move, the old one is freed
Grow(v)     == <<Alloc(Frame), Read(v), Free(v), Move(Frame, v)>>
Clone(v, w) == IF Bug = "clone_shares" THEN <<Free(w), Alias(v, w)>> ELSE <<Alloc(Frame), Read(v), Free(w), Move(Frame, w)>>
Extend(v)   == <<Call>> \o Grow(v) \o <<Call>>
Append2(v, w) == Grow(v) \o <<Read(w)>> \o (IF Bug = "append_forgets" THEN <<Lose(w)>> ELSE <<>>)
Split(v, w) == <<Alloc(Frame), Read(v), Free(w), Move(Frame, w)>>
IntoIter(v) == <<Free(Iter), Move(v, Iter)>>
Next1       == <<Read(Iter), Call>>
DropIter    == IF Bug = "iter_forgets" THEN <<Lose(Iter)>> ELSE <<Free(Iter)>>
Shrink(v)   == Grow(v)
Retain(v)   == IF Bug = "retain_takes" THEN <<Move(v, Frame), Lose(Frame), Call>> ELSE <<Read(v), Call, Read(v)>>
Drop(v)     == <<Free(v)>> \o (IF Bug = "drop_twice" THEN <<St("again", v, v)>> ELSE <<>>)

Operations ==
  {Grow(v) : v \in Vecs} \cup {Extend(v) : v \in Vecs} \cup {Shrink(v) : v \in Vecs} \cup {Retain(v) : v \in Vecs} \cup {Drop(v) : v \in Vecs}
  \cup {IntoIter(v) : v \in Vecs} \cup {Next1, DropIter}
  \cup UNION {{Clone(v, w), Append2(v, w), Split(v, w)} : <<v, w>> \in {x \in Vecs \X Vecs : x[1] # x[2]}}

Init == own = [o \in Owners |-> {}] /\ live = {} /\ todo = <<>> /\ bad = FALSE
Begin == todo = <<>> /\ \E p \in Operations : todo' = p /\ UNCHANGED <<own, live, bad>>
Do ==
  /\ todo # <<>>
  /\ LET x == todo[1] IN
     CASE x.k = "alloc" -> \E m \in Mem \ live : live' = live \cup {m} /\ own' = [own EXCEPT ![x.a] = @ \cup {m}] /\ UNCHANGED bad
       [] x.k = "free"  -> live' = live \ own[x.a] /\ bad' = (bad \/ ~(own[x.a] \subseteq live)) /\ own' = [own EXCEPT ![x.a] = {}]
       [] x.k = "again" -> bad' = TRUE /\ UNCHANGED <<own, live>>
       [] x.k = "move"  -> own' = [own EXCEPT ![x.b] = @ \cup own[x.a], ![x.a] = {}] /\ UNCHANGED <<live, bad>>
       [] x.k = "alias" -> own' = [own EXCEPT ![x.b] = own[x.a]] /\ UNCHANGED <<live, bad>>
       [] x.k = "lose"  -> own' = [own EXCEPT ![x.a] = {}] /\ UNCHANGED <<live, bad>>
       [] x.k = "read"  -> bad' = (bad \/ ~(own[x.a] \subseteq live)) /\ UNCHANGED <<own, live>>
       [] x.k = "call"  -> UNCHANGED <<own, live, bad>>
  /\ todo' = Tail(todo)
\* caller code panics: the frame and the iterator are dropped
Panic ==
  /\ todo # <<>> /\ todo[1].k = "call"
  /\ live' = live \ (own[Frame] \cup own[Iter])
  /\ own' = [own EXCEPT ![Frame] = {}, ![Iter] = {}]
  /\ todo' = <<>>
  /\ UNCHANGED bad
Spec == Init /\ [][Begin \/ Do \/ Panic]_vars

OneOwner == \A o, p \in Owners : o # p => own[o] \cap own[p] = {}
NoLeak   == live = UNION {own[o] : o \in Owners}
NoMisuse == ~bad
\* at rest no vector holds more than one allocation, and the frame none
AtRest   == todo = <<>> => own[Frame] = {} /\ \A o \in Owners : Cardinality(own[o]) <= 1
=============================================================================
