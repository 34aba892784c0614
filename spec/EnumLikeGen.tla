---------------------------- MODULE EnumLikeGen ----------------------------
(* Chooses types - systematically up to depth one, pseudo-randomly beyond,  *)
(* and every arity of tuples and arrays - checks the properties of EnumLike *)
(* on each small one, and writes for each the table of values and numbers   *)
(* that the real code must reproduce.  One state per type; OUT receives the *)
(* tables.                                                                  *)
EXTENDS EnumLike, Json, IOUtils, FiniteSets

Env == IOEnv
Seed    == atoi(Env.SEED)
NRandom == atoi(Env.NRANDOM)
MaxCard == atoi(Env.MAXCARD)
Family  == Env.FAMILY         \* "provided", "derived", "wide", "store"
OutDir  == Env.OUTDIR
Workers == 32

\* ------------------------------------------------ pseudo-random choices
\* g = [s |-> seed, k |-> counter for fresh names]
Rn(g)    == [g EXCEPT !.s = (g.s * 1103 + 12345 + g.k) % 65521]
Pk(g, n) == (g.s \div 5) % n

Leaf(n, i) == <<"leaf", <<"La", "Lb", "Lc", "Ld">>[i + 1], n>>   \* four layouts
Base(g) ==
  LET c == Pk(g, 16) IN
  CASE c \in 0..5 -> <<"bool">>
    [] c \in 6..7 -> <<"unit">>
    [] c \in 8..10 -> Leaf(3, (g.s \div 80) % 4)
    [] c = 11 -> Leaf(5, (g.s \div 80) % 4)
    [] c = 12 -> Leaf(0, 0)
    [] c = 13 -> Leaf(4, (g.s \div 80) % 4)
    [] c = 14 -> <<"opt", <<"bool">> >>
    [] c = 15 -> Leaf(2, (g.s \div 80) % 4)

RECURSIVE RType(_, _, _)
RECURSIVE RTypes(_, _, _, _)
\* n random types of depth d:  [ts, g]
RTypes(n, d, adt, g) ==
  IF n = 0 THEN [ts |-> <<>>, g |-> g]
  ELSE LET x == RType(d, adt, g)  y == RTypes(n - 1, d, adt, x.g) IN [ts |-> <<x.t>> \o y.ts, g |-> y.g]

Kinds == <<"unit", "tuple", "named">>
FieldNames == <<"a", "value", "x", "x0", "b1", "offset", "discr", "z_z">>
RECURSIVE RVars(_, _, _, _, _)
\* n variants, named V1.. ; np = number of parameters
RVars(n, i, d, np, g) ==
  IF i > n THEN [vs |-> <<>>, g |-> g]
  ELSE LET g1 == Rn(g)
           kind == Kinds[1 + Pk(g1, 3)]
           g2 == Rn(g1)
           nf == IF kind = "unit" THEN 0 ELSE 1 + Pk(g2, 3)
           fs == RTypes(nf, d, FALSE, Rn(g2))
           g3 == Rn(fs.g)
           \* one of the fields may be a parameter
           ft(j) == IF np > 0 /\ (g3.s + j) % 3 = 0 THEN <<"par", 1 + ((g3.s + j) % np)>> ELSE fs.ts[j]
           v == [n |-> "V" \o ToString((i * 7 + g.k) % 13) \o "x" \o ToString(i), k |-> kind, e |-> -1,
                 f |-> [j \in 1..nf |-> [n |-> FieldNames[1 + ((g3.s + j * 3) % 8)], t |-> ft(j)]]]
           rest == RVars(n, i + 1, d, np, Rn(g3)) IN
       [vs |-> <<v>> \o rest.vs, g |-> rest.g]

\* parameters must all be used: a last variant uses them
RAdt(d, g) ==
  LET g1 == Rn(g)  c == Pk(g1, 10)
      np == IF c \in {2, 5, 8} THEN 1 ELSE IF c = 7 THEN 2 ELSE 0
      g2 == [Rn(g1) EXCEPT !.k = g1.k + 1]
      struct == Pk(g2, 3) = 0
      name == (IF struct THEN "S" ELSE "E") \o ToString(g2.k)
      vs == IF struct THEN RVars(1, 1, d, np, Rn(g2)) ELSE RVars(1 + Pk(Rn(g2), 5), 1, d, np, Rn(g2))
      users == [n |-> "Use", k |-> "tuple", e |-> -1, f |-> [j \in 1..np |-> [n |-> "p", t |-> <<"par", j>>]]]
      vars0 == IF struct THEN << [vs.vs[1] EXCEPT !.n = name,
                                    !.f = IF np = 0 THEN vs.vs[1].f
                                          ELSE IF vs.vs[1].k = "unit" THEN users.f ELSE vs.vs[1].f \o
                                               [j \in 1..np |-> [n |-> "p" \o ToString(j), t |-> <<"par", j>>]],
                                    !.k = IF np > 0 /\ vs.vs[1].k = "unit" THEN "tuple" ELSE vs.vs[1].k] >>
               ELSE IF np = 0 THEN vs.vs ELSE vs.vs \o <<users>>
      args == RTypes(np, d, FALSE, vs.g) IN
  [t |-> <<"adt", [enum |-> ~struct, name |-> name, params |-> SubSeq(<<"T", "U">>, 1, np), vars |-> vars0], args.ts>>, g |-> args.g]

RType(d, adt, g) ==
  LET g1 == Rn(g)  c == Pk(g1, 14) IN
  IF d = 0 THEN [t |-> Base(g1), g |-> Rn(g1)]
  ELSE IF adt /\ c < 7 THEN RAdt(d - 1, g1)
  ELSE CASE c % 7 = 0 -> [t |-> Base(g1), g |-> Rn(g1)]
         [] c % 7 \in {1} -> LET x == RType(d - 1, adt, g1) IN [t |-> <<"opt", x.t>>, g |-> x.g]
         [] c % 7 = 2 -> LET x == RTypes(2, d - 1, adt, g1) IN [t |-> <<"res", x.ts[1], x.ts[2]>>, g |-> x.g]
         [] c % 7 \in {3, 4} -> LET n == 1 + Pk(Rn(g1), 4)  x == RTypes(n, d - 1, adt, Rn(g1)) IN [t |-> <<"tup", x.ts>>, g |-> x.g]
         [] c % 7 \in {5, 6} -> LET n == Pk(Rn(g1), 5)  x == RType(d - 1, adt, Rn(g1)) IN [t |-> <<"arr", n, x.t>>, g |-> x.g]

\* ------------------------------------------------------ systematic types
BaseTypes == << <<"unit">>, <<"bool">>, <<"leaf", "La", 0>>, <<"leaf", "La", 3>>, <<"leaf", "Lb", 3>>, <<"leaf", "Lc", 2>>, <<"leaf", "Ld", 3>> >>
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Arrs1 == Flat([i \in 1..Len(BaseTypes) |-> [j \in 1..4 |-> <<"arr", j - 1, BaseTypes[i]>>]])
Systematic ==
  LET B == BaseTypes  n == Len(B) IN
  B \o [i \in 1..n |-> <<"opt", B[i]>>]
    \o [i \in 1..n |-> <<"tup", <<B[i]>> >>]
    \o Flat([i \in 1..n |-> [j \in 1..n |-> <<"res", B[i], B[j]>>]])
    \o Flat([i \in 1..n |-> [j \in 1..n |-> <<"tup", <<B[i], B[j]>> >>]])
    \o Arrs1

RECURSIVE RandomList(_, _, _)
RandomList(n, adt, g) ==
  IF n = 0 THEN <<>>
  ELSE LET x == RType(2 + Pk(Rn(g), 2), adt, Rn(Rn(g))) IN <<x.t>> \o RandomList(n - 1, adt, x.g)
RECURSIVE RandomAdts(_, _)
RandomAdts(n, g) ==
  IF n = 0 THEN <<>>
  ELSE LET x == RAdt(1 + Pk(Rn(g), 2), Rn(Rn(g))) IN <<x.t>> \o RandomAdts(n - 1, x.g)

\* hand-picked definitions
Vr(n, k, f) == [n |-> n, k |-> k, f |-> f, e |-> -1]
Vd(n, e)    == [n |-> n, k |-> "unit", f |-> <<>>, e |-> e]
Fd(n, t)    == [n |-> n, t |-> t]
En(name, vars) == <<"adt", [enum |-> TRUE, name |-> name, params |-> <<>>, vars |-> vars], <<>> >>
St(name, k, f) == <<"adt", [enum |-> FALSE, name |-> name, params |-> <<>>, vars |-> << Vr(name, k, f) >>], <<>> >>
BO == <<"bool">>
UN == <<"unit">>
L3 == <<"leaf", "La", 3>>
L4 == <<"leaf", "Lb", 4>>
L5 == <<"leaf", "Lc", 5>>
L0 == <<"leaf", "La", 0>>
Empty == En("Never", <<>>)
CLike(n) == En("C" \o ToString(n), [i \in 1..n |-> Vr("K" \o ToString(i), "unit", <<>>)])
Picked == <<
  Empty,
  CLike(1), CLike(2), CLike(3), CLike(17), CLike(40), CLike(257),
  En("Disc", << Vd("A", 100), Vd("B", 7), Vd("C", 50) >>),
  En("DiscNeg", << Vd("A", -5), Vd("B", 3), Vd("C", -1), Vr("D", "unit", <<>>) >>),
  En("Mixed", << Vr("P", "tuple", <<Fd("", BO), Fd("", L3)>>), Vr("Q", "unit", <<>>), Vr("R", "named", <<Fd("value", L5), Fd("x", L3), Fd("x0", BO)>>),
                 Vr("S", "unit", <<>>), Vr("T", "tuple", <<Fd("", L4)>>) >>),
  En("Last", << Vr("A", "unit", <<>>), Vr("B", "unit", <<>>), Vr("C", "tuple", <<Fd("", L5)>>) >>),
  En("First", << Vr("C", "tuple", <<Fd("", L5)>>), Vr("A", "unit", <<>>), Vr("B", "unit", <<>>) >>),
  En("OnlyData", << Vr("A", "tuple", <<Fd("", L3)>>), Vr("B", "named", <<Fd("q", L4)>>), Vr("C", "tuple", <<Fd("", BO)>>) >>),
  En("WithVoid", << Vr("A", "tuple", <<Fd("", Empty)>>), Vr("B", "unit", <<>>), Vr("C", "tuple", <<Fd("", L3), Fd("", Empty), Fd("", BO)>>),
                    Vr("D", "named", <<Fd("x", BO)>>) >>),
  En("VoidMid", << Vr("A", "tuple", <<Fd("", BO)>>), Vr("N", "tuple", <<Fd("", L0)>>), Vr("B", "tuple", <<Fd("", L3)>>) >>),
  En("AllVoid", << Vr("A", "tuple", <<Fd("", Empty)>>), Vr("B", "named", <<Fd("e", L0)>>) >>),
  En("Units", << Vr("A", "tuple", <<Fd("", UN)>>), Vr("B", "tuple", <<Fd("", UN), Fd("", UN)>>), Vr("C", "unit", <<>>), Vr("D", "named", <<Fd("u", UN), Fd("v", BO)>>) >>),
  En("Six", << Vr("A", "tuple", <<Fd("", BO), Fd("", L3), Fd("", L4), Fd("", BO), Fd("", L5), Fd("", L3)>>), Vr("Z", "unit", <<>>) >>),
  En("SixNamed", << Vr("Z", "unit", <<>>), Vr("A", "named", <<Fd("f", BO), Fd("e", L3), Fd("d", L4), Fd("c", BO), Fd("b", L5), Fd("a", L3)>>), Vr("Y", "tuple", <<Fd("", L4)>>) >>),
  St("Su", "unit", <<>>), St("St0", "tuple", <<>>), St("Sn0", "named", <<>>),
  St("S1", "tuple", <<Fd("", L5)>>), St("S2", "tuple", <<Fd("", L3), Fd("", L5)>>), St("S3", "named", <<Fd("value", L3), Fd("x", BO), Fd("a", L5)>>),
  St("S5", "tuple", <<Fd("", BO), Fd("", L5), Fd("", L3), Fd("", L4), Fd("", BO)>>),
  St("Sv", "tuple", <<Fd("", L3), Fd("", Empty)>>), St("Sv2", "named", <<Fd("n", Empty), Fd("m", BO)>>),
  St("Sarr", "tuple", <<Fd("", <<"arr", 3, L3>>), Fd("", <<"opt", BO>>), Fd("", <<"tup", <<BO, L4>> >>)>>),
  En("Nest", << Vr("A", "tuple", <<Fd("", En("NestIn", << Vr("P", "tuple", <<Fd("", L3)>>), Vr("Q", "unit", <<>>) >>)), Fd("", BO)>>), Vr("B", "unit", <<>>),
                Vr("C", "named", <<Fd("s", St("NestS", "named", <<Fd("a", BO), Fd("b", L3)>>))>>) >>),
  \* many unit variants before, between and after data
  En("ManyUnits", [i \in 1..264 |-> IF i \in {100, 264} THEN Vr("D" \o ToString(i), "tuple", <<Fd("", L3), Fd("", BO)>>) ELSE Vr("M" \o ToString(i), "unit", <<>>)]),
  \* many variants with data
  En("ManyData", [i \in 1..60 |-> IF i % 3 = 0 THEN Vr("P" \o ToString(i), "tuple", <<Fd("", BO), Fd("", L3)>>)
                                   ELSE IF i % 3 = 1 THEN Vr("N" \o ToString(i), "named", <<Fd("k", BO)>>)
                                   ELSE Vr("U" \o ToString(i), IF i % 2 = 0 THEN "unit" ELSE "tuple", IF i % 2 = 0 THEN <<>> ELSE <<Fd("", UN)>>)]),
  \* many fields, most of them with one value
  St("ManyFields", "tuple", [i \in 1..24 |-> Fd("", IF i \in {2, 9, 17} THEN L3 ELSE IF i \in {12, 23} THEN BO ELSE UN)]),
  En("ManyNamed", << Vr("A", "unit", <<>>), Vr("B", "named", [i \in 1..16 |-> Fd("f" \o ToString(17 - i), IF i \in {3, 11} THEN L3 ELSE IF i \in {10, 16} THEN BO ELSE UN)]),
                     Vr("C", "tuple", [i \in 1..14 |-> Fd("", IF i \in {1, 11} THEN L4 ELSE IF i = 14 THEN BO ELSE UN)]) >>),
  <<"adt", [enum |-> TRUE, name |-> "Ga", params |-> <<"T", "U">>,
            vars |-> << Vr("A", "tuple", <<Fd("", <<"par", 1>>)>>), Vr("N", "unit", <<>>), Vr("B", "named", <<Fd("l", <<"par", 2>>), Fd("r", <<"par", 1>>)>>),
                        Vr("O", "tuple", <<Fd("", <<"opt", <<"par", 2>> >>), Fd("", <<"arr", 2, <<"par", 1>> >>)>>) >>], <<L3, BO>> >>,
  <<"adt", [enum |-> FALSE, name |-> "Gs", params |-> <<"T">>, vars |-> << Vr("Gs", "named", <<Fd("x", <<"par", 1>>), Fd("y", L3), Fd("z", <<"par", 1>>)>>) >>], <<L4>> >>,
  <<"adt", [enum |-> TRUE, name |-> "Ge", params |-> <<"T">>, vars |-> << Vr("A", "tuple", <<Fd("", <<"par", 1>>)>>), Vr("B", "tuple", <<Fd("", BO)>>) >>], <<L0>> >>
>>

\* ------------------------------------------------- wide tuples and arrays
WideParts == << <<"bool">>, <<"leaf", "La", 3>>, <<"unit">>, <<"opt", <<"bool">> >>, <<"leaf", "Lb", 2>>, <<"tup", <<BO, UN>> >>, <<"leaf", "Lc", 1>>, <<"leaf", "Ld", 3>> >>
WideTuple(n, r) == <<"tup", [i \in 1..n |-> WideParts[1 + ((i * (2 * r + 1) + r * 3) % 8)]]>>
WideArrays(n) == << <<"arr", n, BO>>, <<"arr", n, <<"leaf", "La", 3>> >>, <<"arr", n, <<"opt", UN>> >> >>
                 \o (IF n <= 31 THEN << <<"arr", n, <<"leaf", "Lb", 4>> >> >> ELSE <<>>)
                 \o << <<"arr", n, UN>> >>
Wide == Flat([n \in 1..32 |-> [r \in 1..3 |-> WideTuple(n, r + (Seed % 4))]]) \o Flat([n \in 1..32 |-> WideArrays(n)])

\* Products and sums whose number of values is far beyond 32 bits, nested.
\* The numbers must stay below 2^64.
B32 == <<"arr", 32, BO>>
T32 == <<"arr", 32, <<"leaf", "Lb", 3>> >>
Huge == <<
  <<"opt", B32>>, <<"opt", T32>>, <<"res", T32, B32>>, <<"res", B32, T32>>, <<"res", <<"opt", T32>>, <<"res", BO, B32>> >>,
  <<"tup", <<B32, <<"arr", 31, BO>> >> >>, <<"tup", <<BO, B32, <<"leaf", "Ld", 3>>, <<"arr", 9, L3>> >> >>,
  <<"tup", <<L3, <<"opt", B32>>, BO>> >>, <<"arr", 2, <<"arr", 31, BO>> >>, <<"arr", 3, <<"opt", <<"arr", 20, BO>> >> >>,
  <<"arr", 7, <<"tup", <<L3, L5, BO, UN, BO>> >> >>, <<"arr", 4, <<"arr", 4, <<"arr", 2, L3>> >> >>,
  <<"res", <<"arr", 31, L4>>, <<"opt", <<"arr", 30, L4>> >> >>,
  En("HugeE", << Vr("A", "tuple", <<Fd("", B32), Fd("", L3)>>), Vr("B", "unit", <<>>), Vr("C", "named", <<Fd("x", L5), Fd("y", T32)>>),
                 Vr("D", "tuple", <<Fd("", BO)>>), Vr("E", "unit", <<>>), Vr("F", "tuple", <<Fd("", L3), Fd("", B32), Fd("", L3)>>) >>),
  St("HugeS", "named", <<Fd("p", L3), Fd("q", B32), Fd("r", L5), Fd("s", <<"opt", L3>>), Fd("t", <<"arr", 14, BO>>)>>),
  St("HugeF", "named", [i \in 1..30 |-> Fd("f" \o ToString(i), IF i % 4 = 0 THEN L4 ELSE IF i % 4 = 1 THEN L3 ELSE BO)]),
  <<"opt", St("HugeT", "tuple", <<Fd("", <<"arr", 31, BO>>), Fd("", B32)>>)>>
>>

\* A value of t chosen by mode: 0 the first, 1 the last alternative that has
\* values everywhere, otherwise pseudo-random by seed m
RECURSIVE Sample(_, _, _)
Sample(t, m, g) ==
  LET s  == Summands(t)
      ok == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : BCardProd(s[i].f) # <<>>)
      h  == Rn([s |-> (g * 31 + m * 977 + 5) % 65521, k |-> m])
      c  == ok[CASE m = 0 -> 1 [] m = 1 -> Len(ok) [] OTHER -> 1 + Pk(h, Len(ok))] IN
  <<s[c].alt>> \o [i \in 1..Len(s[c].f) |-> Sample(s[c].f[i], m, (h.s + i * 4057) % 65521)]
SampleVals(t, n) == [k \in 1..n |-> Sample(t, k - 1, k + Seed)]

\* the family's types, small enough or (wide) sampled
Small(t) == BLt(BCard(t), BOf(MaxCard + 1))
G0 == [s |-> (Seed * 7919 + 17) % 65521, k |-> 100]
TypeList ==
  CASE Family = "provided" -> Systematic \o RandomList(NRandom, FALSE, G0)
    [] Family = "derived"  -> Picked \o RandomAdts(NRandom, G0) \o RandomList(NRandom \div 4, TRUE, [G0 EXCEPT !.k = 5000])
    [] Family = "wide"     -> <<>>
    [] Family = "store"    -> BaseTypes \o Picked \o RandomList(NRandom, FALSE, G0) \o RandomAdts(NRandom, G0)
Extra ==
  CASE Family = "provided" -> <<>>
    [] Family = "store"    -> Huge
    [] Family = "derived"  -> SelectSeq(Huge, LAMBDA t : t[1] = "adt" \/ (t[1] = "opt" /\ t[2][1] = "adt"))
    [] Family = "wide"     -> Wide \o SelectSeq(Huge, LAMBDA t : ~(t[1] = "adt" \/ (t[1] = "opt" /\ t[2][1] = "adt")))
All == SelectSeq(TypeList, Small) \o Extra

\* sample values of a wide product: every value of every component, the
\* others first all at their first, then all at their last value
WideVals(t) ==
  LET fs == Summands(t)[1].f  n == Len(fs)
      lo == [i \in 1..n |-> Dec(fs[i], 0)]
      hi == [i \in 1..n |-> Dec(fs[i], Card(fs[i]) - 1)]
      mix == [i \in 1..n |-> Dec(fs[i], ((i * 5 + Seed) % 7) % Card(fs[i]))]
      V(b, i, x) == <<0>> \o [b EXCEPT ![i] = Dec(fs[i], x)] IN
  << <<0>> \o lo, <<0>> \o hi, <<0>> \o mix >>
  \o Flat([i \in 1..n |-> Flat([x \in 1..Card(fs[i]) |-> << V(lo, i, x - 1), V(hi, i, x - 1), V(mix, i, x - 1) >>])])

AllSmall(t) == t[1] \in {"tup", "arr"} /\ \A f \in {Summands(t)[1].f[i] : i \in 1..Len(Summands(t)[1].f)} : BLt(BCard(f), BOf(100))
Vals(t) == IF Small(t) THEN [k \in 1..Card(t) |-> Dec(t, k - 1)]
           ELSE IF AllSmall(t) THEN WideVals(t) \o SampleVals(t, 12)
           ELSE SampleVals(t, 60)
Table(t) ==
  LET vals == Vals(t) IN
  [term |-> t, card |-> BShow(BCard(t)), complete |-> IF Small(t) THEN 1 ELSE 0,
   rows |-> [k \in 1..Len(vals) |-> <<Show(t, vals[k]), BShow(BEnc(t, vals[k]))>>]]

\* One state per type; the intermediate ones only spread the work over
\* TLC's workers.
VARIABLE idx
Init == idx = 0
Next == \/ idx = 0 /\ idx' \in {-k : k \in 1..Workers}
        \/ idx < 0 /\ idx' \in {j \in 1..Len(All) : j % Workers = (-idx) - 1}
\* one file per type
Written == ndJsonSerialize(OutDir \o "/" \o ToString(idx) \o ".json", <<Table(All[idx])>>)
Checked == Small(All[idx]) =>
             /\ NumberingBijective(All[idx]) /\ Compositional(All[idx]) /\ TupleNest(All[idx]) /\ DerivedOrder(All[idx])
             /\ Cardinality({Show(All[idx], Dec(All[idx], d)) : d \in 0..(Card(All[idx]) - 1)}) = Card(All[idx])
Inv == idx > 0 => Checked /\ Written
Spec == Init /\ [][Next]_idx
=============================================================================
