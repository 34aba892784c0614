------------------------------ MODULE EnumLike ------------------------------
(* The meaning of the EnumLike trait: types, their values, how many there   *)
(* are (NUM_VARIANTS), how they are numbered (to_discr, from_discr) and how *)
(* Rust's Debug shows them.                                                 *)
(*                                                                          *)
(* Types:                                                                   *)
(*   <<"unit">>  <<"bool">>                                                 *)
(*   <<"leaf", name, n>>      a hand-written type with n values             *)
(*   <<"opt", T>>  <<"res", T, E>>  <<"tup", <<T1, .., Tn>> >>              *)
(*   <<"arr", n, T>>                                                        *)
(*   <<"adt", D, <<A1, .., Ak>> >>   a derived type, D = [enum, name,       *)
(*        params, vars], vars = sequence of [n, k, f, e] (name, kind,       *)
(*        fields, explicit discriminant), fields = sequence of [n, t]; a    *)
(*        struct has one variant                                            *)
(*   <<"par", i>>             parameter i of the enclosing definition       *)
(*                                                                          *)
(* Values are sequences that start with the position of the alternative:    *)
(*   leaf: <<k>>; opt: <<0, v>> Some, <<1>> None; res: <<0, v>> / <<1, v>>; *)
(*   tup, arr: <<0, v1, .., vn>>; adt: <<variant, v1, .., vn>>.             *)
(*                                                                          *)
(* Every type is first brought into the form of a sum of products           *)
(* (Summands), in the order in which the values are numbered.               *)
EXTENDS BigNat, Integers, SequencesExt, FiniteSetsExt

RECURSIVE Subst(_, _)
Subst(t, args) ==
  CASE t[1] = "par" -> args[t[2]]
    [] t[1] = "opt" -> <<"opt", Subst(t[2], args)>>
    [] t[1] = "res" -> <<"res", Subst(t[2], args), Subst(t[3], args)>>
    [] t[1] = "tup" -> <<"tup", [i \in 1..Len(t[2]) |-> Subst(t[2][i], args)]>>
    [] t[1] = "arr" -> <<"arr", t[2], Subst(t[3], args)>>
    [] t[1] = "adt" -> <<"adt", t[2], [i \in 1..Len(t[3]) |-> Subst(t[3][i], args)]>>
    [] OTHER -> t

FieldTypes(v, args) == [i \in 1..Len(v.f) |-> Subst(v.f[i].t, args)]

\* indices of the variants in numbering order: unit variants, then the others
VarOrder(D) ==
  LET ix == [i \in 1..Len(D.vars) |-> i] IN
  SelectSeq(ix, LAMBDA i : D.vars[i].k = "unit") \o SelectSeq(ix, LAMBDA i : D.vars[i].k # "unit")

\* The type as a sum of products: a sequence of [alt |-> number of the
\* alternative in values, f |-> types of its components], in numbering order.
Summands(t) ==
  CASE t[1] = "unit" -> << [alt |-> 0, f |-> <<>>] >>
    [] t[1] = "bool" -> << [alt |-> 0, f |-> <<>>], [alt |-> 1, f |-> <<>>] >>
    [] t[1] = "leaf" -> [i \in 1..t[3] |-> [alt |-> i - 1, f |-> <<>>]]
    [] t[1] = "opt"  -> << [alt |-> 0, f |-> <<t[2]>>], [alt |-> 1, f |-> <<>>] >>
    [] t[1] = "res"  -> << [alt |-> 0, f |-> <<t[2]>>], [alt |-> 1, f |-> <<t[3]>>] >>
    [] t[1] = "tup"  -> << [alt |-> 0, f |-> t[2]] >>
    [] t[1] = "arr"  -> << [alt |-> 0, f |-> [i \in 1..t[2] |-> t[3]]] >>
    [] t[1] = "adt"  -> LET o == VarOrder(t[2]) IN
                        [i \in 1..Len(o) |-> [alt |-> o[i] - 1, f |-> FieldTypes(t[2].vars[o[i]], t[3])]]

\* ------------------------------------------------- numbers (TLC integers)
RECURSIVE Card(_)
CardProd(fs) == FoldLeft(LAMBDA a, b : a * b, 1, [i \in 1..Len(fs) |-> Card(fs[i])])
Card(t) == LET s == Summands(t) IN FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(s) |-> CardProd(s[i].f)])

RECURSIVE Enc(_, _)
\* fields 1..n of a product: first field varies fastest
EncFields(fs, v) ==
  FoldLeft(LAMBDA acc, i : [w |-> acc.w * Card(fs[i]), d |-> acc.d + acc.w * Enc(fs[i], v[i + 1])],
           [w |-> 1, d |-> 0], [i \in 1..Len(fs) |-> i]).d
Enc(t, v) ==
  LET s == Summands(t)
      k == CHOOSE k \in 1..Len(s) : s[k].alt = v[1]
      off == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..(k - 1) |-> CardProd(s[i].f)]) IN
  off + EncFields(s[k].f, v)

RECURSIVE Dec(_, _)
DecFields(fs, d) ==
  FoldLeft(LAMBDA acc, i : [d |-> acc.d \div Card(fs[i]), v |-> Append(acc.v, Dec(fs[i], acc.d % Card(fs[i])))],
           [d |-> d, v |-> <<>>], [i \in 1..Len(fs) |-> i]).v
RECURSIVE DecAt(_, _, _)
DecAt(s, k, d) == IF d < CardProd(s[k].f) THEN <<s[k].alt>> \o DecFields(s[k].f, d) ELSE DecAt(s, k + 1, d - CardProd(s[k].f))
Dec(t, d) == DecAt(Summands(t), 1, d)

\* ---------------------------------------------------- the same, unbounded
RECURSIVE BCard(_)
BCardProd(fs) == FoldLeft(LAMBDA a, b : BMul(a, b), BOf(1), [i \in 1..Len(fs) |-> BCard(fs[i])])
BCard(t) == LET s == Summands(t) IN FoldLeft(LAMBDA a, b : BAdd(a, b), <<>>, [i \in 1..Len(s) |-> BCardProd(s[i].f)])

RECURSIVE BEnc(_, _)
BEncFields(fs, v) ==
  FoldLeft(LAMBDA acc, i : [w |-> BMul(acc.w, BCard(fs[i])), d |-> BAdd(acc.d, BMul(acc.w, BEnc(fs[i], v[i + 1])))],
           [w |-> BOf(1), d |-> <<>>], [i \in 1..Len(fs) |-> i]).d
BEnc(t, v) ==
  LET s == Summands(t)
      k == CHOOSE k \in 1..Len(s) : s[k].alt = v[1]
      off == FoldLeft(LAMBDA a, b : BAdd(a, b), <<>>, [i \in 1..(k - 1) |-> BCardProd(s[i].f)]) IN
  BAdd(off, BEncFields(s[k].f, v))

\* ------------------------------------------------------------ Debug texts
RECURSIVE Show(_, _)
ShowList(fs, v, lo) ==       \* components from field lo on, separated by ", "
  FoldLeft(LAMBDA acc, i : acc \o (IF i = lo THEN "" ELSE ", ") \o Show(fs[i], v[i + 1]), "", [j \in 1..(Len(fs) - lo + 1) |-> lo + j - 1])
ShowNamed(fl, fs, v) ==
  FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE ", ") \o fl[i].n \o ": " \o Show(fs[i], v[i + 1]), "", [j \in 1..Len(fs) |-> j])
Show(t, v) ==
  CASE t[1] = "unit" -> "()"
    [] t[1] = "bool" -> IF v[1] = 1 THEN "true" ELSE "false"
    [] t[1] = "leaf" -> "#" \o ToString(v[1])
    [] t[1] = "opt"  -> IF v[1] = 1 THEN "None" ELSE "Some(" \o Show(t[2], v[2]) \o ")"
    [] t[1] = "res"  -> IF v[1] = 0 THEN "Ok(" \o Show(t[2], v[2]) \o ")" ELSE "Err(" \o Show(t[3], v[2]) \o ")"
    [] t[1] = "tup"  -> IF Len(t[2]) = 1 THEN "(" \o Show(t[2][1], v[2]) \o ",)" ELSE "(" \o ShowList(t[2], v, 1) \o ")"
    [] t[1] = "arr"  -> "[" \o ShowList([i \in 1..t[2] |-> t[3]], v, 1) \o "]"
    [] t[1] = "adt"  -> LET x == t[2].vars[v[1] + 1]  fs == FieldTypes(x, t[3]) IN
                        CASE x.k = "unit" \/ Len(fs) = 0 -> x.n
                          [] x.k = "tuple" -> x.n \o "(" \o ShowList(fs, v, 1) \o ")"
                          [] x.k = "named" -> x.n \o " { " \o ShowNamed(x.f, fs, v) \o " }"

\* ------------------------------------------------------------- properties
\* C12/C16: Enc is a bijection from the values onto 0..Card-1, inverted by Dec
NumberingBijective(t) ==
  /\ \A d \in 0..(Card(t) - 1) : Enc(t, Dec(t, d)) = d
  /\ BCard(t) = BOf(Card(t))
  /\ \A d \in 0..(Card(t) - 1) : BEnc(t, Dec(t, d)) = BOf(d)
\* C13: stated directly for each constructor (not through Summands)
Compositional(t) ==
  CASE t[1] = "opt" -> \A d \in 0..(Card(t) - 1) :
                         Dec(t, d) = IF d < Card(t[2]) THEN <<0, Dec(t[2], d)>> ELSE <<1>>
    [] t[1] = "res" -> \A d \in 0..(Card(t) - 1) :
                         Dec(t, d) = IF d < Card(t[2]) THEN <<0, Dec(t[2], d)>> ELSE <<1, Dec(t[3], d - Card(t[2]))>>
    [] t[1] = "tup" /\ Len(t[2]) = 2 ->
         \A a \in 0..(Card(t[2][1]) - 1), b \in 0..(Card(t[2][2]) - 1) :
            Enc(t, <<0, Dec(t[2][1], a), Dec(t[2][2], b)>>) = a + Card(t[2][1]) * b
    [] t[1] = "arr" -> \A d \in 0..(Card(t) - 1) : Dec(t, d) = Dec(<<"tup", [i \in 1..t[2] |-> t[3]]>>, d)
    [] OTHER -> TRUE
\* (A, B, C) is numbered like ((A, B), C)
TupleNest(t) ==
  (t[1] = "tup" /\ Len(t[2]) >= 3) =>
    LET n == Len(t[2])  u == <<"tup", << <<"tup", SubSeq(t[2], 1, n - 1)>>, t[2][n] >> >> IN
    \A d \in 0..(Card(t) - 1) : LET v == Dec(t, d) IN Enc(u, <<0, SubSeq(v, 1, n), v[n + 1]>>) = d
\* C17: a derived struct, and a data-carrying variant, is numbered like the tuple of its fields
DerivedOrder(t) ==
  t[1] = "adt" =>
    LET D == t[2]  units == SelectSeq(D.vars, LAMBDA x : x.k = "unit") IN
    /\ \A i \in 1..Len(units) : D.vars[Dec(t, i - 1)[1] + 1] = units[i]
    /\ \A d \in Len(units)..(Card(t) - 1) :
         LET v == Dec(t, d)  x == D.vars[v[1] + 1]  tt == <<"tup", FieldTypes(x, t[3])>>
             before == {j \in 1..v[1] : D.vars[j].k # "unit"} IN
         d = Len(units) + FoldSet(LAMBDA j, a : a + CardProd(FieldTypes(D.vars[j], t[3])), 0, before)
             + Enc(tt, [v EXCEPT ![1] = 0])
=============================================================================
