------------------------------- MODULE SetSem -------------------------------
(* The meaning of an EnumSet: a mathematical set of values, here of their   *)
(* positions 0..p-1 in ascending discriminant order.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Range0(q) == {q[k] : k \in 1..Len(q)}
Ascending(S) == SetToSortSeq(S, <)

\* An operation on slots 1..4 of s.  [s |-> slots afterwards, r |-> result]
Edit(s, o, i, j, a) ==
  LET N(S)  == [s EXCEPT ![i] = S]
      R(t, r) == [s |-> t, r |-> r]
      U     == <<"u">>
      B(b)  == <<"b", IF b THEN 1 ELSE 0>> IN
  CASE o \in {"new", "default", "clear"} -> R(N({}), U)
    [] o = "insert"   -> R(N(s[i] \cup {a[1]}), B(a[1] \notin s[i]))
    [] o = "remove"   -> R(N(s[i] \ {a[1]}), B(a[1] \in s[i]))
    [] o = "has"      -> R(s, B(a[1] \in s[i]))
    [] o = "extend"   -> R(N(s[i] \cup Range0(a)), U)
    [] o \in {"collect", "frombits"} -> R(N(Range0(a)), U)
    [] o = "shrink"   -> R(s, U)
    [] o = "unionw"   -> R(N(s[i] \cup s[j]), U)
    [] o = "interw"   -> R(N(s[i] \cap s[j]), U)
    [] o = "diffw"    -> R(N(s[i] \ s[j]), U)
    [] o = "symw"     -> R(N(SymDiff(s[i], s[j])), U)
    [] o \in {"clone", "clonefrom"} -> R([s EXCEPT ![j] = s[i]], U)
    [] o \in {"tobits", "refbits"}  -> R(s, <<"q", Ascending(s[i])>>)
Edits == {"new", "default", "clear", "insert", "remove", "has", "extend", "collect", "frombits", "shrink", "unionw", "interw",
          "diffw", "symw", "clone", "clonefrom", "tobits", "refbits"}

\* the set an iterator ranges over
Ranged(s, o, i, j) ==
  CASE o \in {"iter", "into"} -> s[i]
    [] o = "union" -> s[i] \cup s[j]
    [] o = "inter" -> s[i] \cap s[j]
    [] o = "diff"  -> s[i] \ s[j]
    [] o = "sym"   -> SymDiff(s[i], s[j])
Iters == {"iter", "into", "union", "inter", "diff", "sym"}

Related(s, o, i, j) ==
  CASE o = "sub" -> s[i] \subseteq s[j]
    [] o = "sup" -> s[j] \subseteq s[i]
    [] o = "dis" -> s[i] \cap s[j] = {}
Relations == {"sub", "sup", "dis"}

\* Iterator calls on the sequence q of members still to come (codes as in
\* IterSem; n = -1 is the largest number).  Size hints need only be bounds.
\* TRUE iff result r is right; the rest of the members is IterRest.
RECURSIVE Every(_, _)
Every(q, k) == IF q = <<>> THEN <<>> ELSE <<q[1]>> \o Every(SubSeq(q, k + 1, Len(q)), k)
Drop(q, n) == IF n < 0 \/ n >= Len(q) THEN <<>> ELSE SubSeq(q, n + 1, Len(q))
Ahead(q, n) == LET K == {k \in 1..Len(q) : q[k] = n} IN IF K = {} THEN Len(q) ELSE (CHOOSE k \in K : TRUE) - 1
IterOK(q, c, n, r) ==
  CASE c = 0  -> r = IF q = <<>> THEN <<"n">> ELSE <<"s", q[1]>>
    [] c = 2  -> r = IF n < 0 \/ n >= Len(q) THEN <<"n">> ELSE <<"s", q[n + 1]>>
    [] c = 4  -> r[2] <= Len(q) /\ (r[3] = -1 \/ r[3] >= Len(q))
    [] c = 6  -> r = <<"l", Len(q)>>
    [] c = 7  -> r = IF q = <<>> THEN <<"n">> ELSE <<"s", q[Len(q)]>>
    [] c = 16 -> r = IF Ahead(q, n) = Len(q) THEN <<"n">> ELSE <<"l", Ahead(q, n)>>
    [] c = 19 -> r = <<"l", IF Ahead(q, n) = Len(q) THEN 0 ELSE 1>>
    [] c = 20 -> r = <<"l", IF Ahead(q, n) = Len(q) THEN 1 ELSE 0>>
    [] c = 21 -> r = IF Ahead(q, n) = Len(q) THEN <<"n">> ELSE <<"s", n>>
    [] c \in {8, 13, 18} -> r = <<"q", q>>
    [] c = 10 -> r = <<"q", Drop(q, n)>>
    [] c = 11 -> r = <<"q", Every(q, n + 1)>>
    [] c = 12 -> r = <<"q", IF n >= Len(q) THEN q ELSE SubSeq(q, 1, n)>>
IterRest(q, c, n) ==
  CASE c = 0 -> Drop(q, 1) [] c = 2 -> (IF n < 0 THEN <<>> ELSE Drop(q, n + 1)) [] c = 12 -> Drop(q, n) [] c \in {16, 19, 20, 21} -> Drop(q, Ahead(q, n) + 1) [] c = 4 -> q [] OTHER -> <<>>
RECURSIVE ScriptOK(_, _, _, _)
ScriptOK(q, script, results, k) ==
  IF k > Len(script) THEN Len(results) = Len(script)
  ELSE /\ k <= Len(results)
       /\ IterOK(q, script[k][1], script[k][2], results[k])
       /\ ScriptOK(IterRest(q, script[k][1], script[k][2]), script, results, k + 1)

\* ------------------------------------------------- order, equality, hash
\* c[a][b] comparison, p partial comparison, e equality (1 equal, 2 not),
\* lt bits (< 1, <= 2, > 4, >= 8), h hashes
OrderOK(s, c, p, e, lt, h) ==
  LET I == 1..Len(s) IN
  /\ \A a, b \in I :
       /\ (c[a][b] = 0) <=> (s[a] = s[b])
       /\ p[a][b] = c[a][b]
       /\ c[a][b] = -c[b][a]
       /\ e[a][b] = IF s[a] = s[b] THEN 1 ELSE 2
       /\ lt[a][b] = (IF c[a][b] < 0 THEN 1 + 2 ELSE IF c[a][b] = 0 THEN 2 + 8 ELSE 4 + 8)
       /\ s[a] = s[b] => h[a] = h[b]
  /\ \A a, b, d \in I : c[a][b] <= 0 /\ c[b][d] <= 0 => c[a][d] <= 0

RECURSIVE Join(_, _, _)
Join(q, txt, sep) == IF q = <<>> THEN "" ELSE txt[q[1] + 1] \o (IF Len(q) > 1 THEN sep ELSE "") \o Join(Tail(q), txt, sep)
DebugText(S, txt) == "{" \o Join(Ascending(S), txt, ", ") \o "}"
PrettyText(S, txt) == IF S = {} THEN "{}" ELSE "{\n    " \o Join(Ascending(S), txt, ",\n    ") \o ",\n}"
=============================================================================
