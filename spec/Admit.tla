------------------------------- MODULE Admit -------------------------------
(* C21, C07.  Which types a storage admits, and how it packs them.          *)
(*                                                                          *)
(* A probe is a program that uses one storage with one type.  The type has  *)
(* 2^k + d values.  The compiler admits or refuses the program; an admitted *)
(* one is run: it stores the values Vals in turn and reads them back.       *)
(* TLC chooses the probes, decides them, checks the decisions against the   *)
(* primary definition of the element width, and writes them out to be       *)
(* compiled; AdmitTrace judges what the compiler and the programs did.      *)
EXTENDS Density, BigNat, FiniteSets, SequencesExt, Json, IOUtils

Tier   == IOEnv.TIER
OutDir == IOEnv.OUTDIR
Pick   == atoi(IOEnv.SEED)
Width(s) == CASE s = "vec_u8" -> 8 [] s = "vec_u16" -> 16 [] s \in {"vec_u32", "smallvec_u32"} -> 32
              [] s = "vec_u64" -> 64 [] s = "vec_u128" -> 128 [] s = "packed_u8" -> 8 [] s = "packed_u16" -> 16
Vectors == {"vec_u8", "vec_u16", "vec_u32", "vec_u64", "vec_u128", "smallvec_u32"}
Wrappers == {"packed_u8", "packed_u16"}

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE LET h == Pow2(k - 1) IN BAdd(h, h)
RECURSIVE Less(_, _)
Less(a, n) == IF n = 0 THEN a ELSE Less(BPred(a), n - 1)
Num(k, d) == IF d >= 0 THEN BAdd(Pow2(k), BOf(d)) ELSE Less(Pow2(k), -d)
Top == 64                                   \* a number of values is a 64-bit usize
Exists(k, d) == k < Top \/ (k = Top /\ d < 0)

\* The primary definition: the least b with 2^b >= N
RECURSIVE LeastFrom(_, _, _)
LeastFrom(b, p, n) == IF BCmp(p, n) >= 0 THEN b ELSE LeastFrom(b + 1, BAdd(p, p), n)
LeastBits(n) == LeastFrom(0, <<1>>, n)

\* a wrapper takes anything that fits, a vector needs at least two values
Admits(s, k, d) == IF s \in Wrappers THEN AtMostPow(k, d, Width(s)) ELSE Admissible(k, d, Width(s))

\* Ways into a vector (a refused type must be refused by each)
Entries == <<"push", "capacity", "collect", "slice", "vec", "elem", "resize", "insert", "extend", "macro", "get", "any", "pop", "shrink">>
Ways(s) == IF s \in Wrappers THEN <<"pack">> ELSE Entries

\* Types written out in Rust, by the number of their values
Written == <<
  [t |-> "()", k |-> 0, d |-> 0], [t |-> "[(); 3]", k |-> 0, d |-> 0], [t |-> "((), ((), ()))", k |-> 0, d |-> 0],
  [t |-> "Never", k |-> 0, d |-> -1], [t |-> "[Never; 2]", k |-> 0, d |-> -1], [t |-> "(bool, Never)", k |-> 0, d |-> -1],
  [t |-> "Option<Never>", k |-> 0, d |-> 0], [t |-> "Result<(), Never>", k |-> 0, d |-> 0], [t |-> "Unit", k |-> 0, d |-> 0], [t |-> "Solo", k |-> 0, d |-> 0],
  [t |-> "Option<()>", k |-> 1, d |-> 0], [t |-> "Result<(), ()>", k |-> 1, d |-> 0], [t |-> "Result<Never, bool>", k |-> 1, d |-> 0], [t |-> "Mixed", k |-> 2, d |-> 0],
  [t |-> "[bool; 7]", k |-> 7, d |-> 0], [t |-> "Option<[bool; 7]>", k |-> 7, d |-> 1], [t |-> "E255", k |-> 8, d |-> -1], [t |-> "E256", k |-> 8, d |-> 0], [t |-> "E257", k |-> 8, d |-> 1],
  [t |-> "[bool; 8]", k |-> 8, d |-> 0], [t |-> "Option<[bool; 8]>", k |-> 8, d |-> 1], [t |-> "Result<(), [bool; 8]>", k |-> 8, d |-> 1],
  [t |-> "[bool; 16]", k |-> 16, d |-> 0], [t |-> "Option<[bool; 16]>", k |-> 16, d |-> 1], [t |-> "([bool; 16], ())", k |-> 16, d |-> 0],
  [t |-> "[bool; 32]", k |-> 32, d |-> 0], [t |-> "Option<[bool; 32]>", k |-> 32, d |-> 1], [t |-> "([bool; 32], bool)", k |-> 33, d |-> 0],
  [t |-> "([bool; 32], [bool; 31])", k |-> 63, d |-> 0], [t |-> "Option<([bool; 32], [bool; 31])>", k |-> 63, d |-> 1],
  [t |-> "([bool; 16], [bool; 32])", k |-> 48, d |-> 0] >>

\* ds: distances from a power of two
Dist == IF Tier = "quick" THEN <<-1, 0, 1>> ELSE <<-3, -2, -1, 0, 1, 2, 3>>
Grid == {kd \in (0..Top) \X ToSet(Dist) : Exists(kd[1], kd[2]) /\ (kd[1] >= 4 \/ kd[2] \in {-1, 0, 1}) }
\* one name per number (<<1, 1>> and <<2, -1>> are both three)
Canon == {kd \in Grid : ~(kd = <<1, 1>> \/ kd = <<0, 1>> \/ kd = <<1, -1>>)}

Stores == SetToSeq(Vectors \cup Wrappers)
\* Refusals are compiled one by one: near the storage's limits and far beyond
Far == {<<64, -1>>, <<63, 0>>, <<32, 0>>, <<32, 1>>, <<16, 1>>, <<48, -1>>, <<33, 0>>, <<9, 0>>, <<17, 1>>, <<10, 1>>, <<40, 0>>}
Near(s) == IF s \in Wrappers \/ Width(s) < 64 THEN {<<Width(s), 1>>, <<Width(s) + 1, -1>>, <<Width(s) + 1, 0>>} ELSE {}
Refused(s) == {kd \in Near(s) \cup Far \cup (IF s \in Wrappers THEN {} ELSE {<<0, -1>>, <<0, 0>>}) : ~Admits(s, kd[1], kd[2])}

Probe(s, t, k, d, w) == [store |-> s, ty |-> t, k |-> k, d |-> d, way |-> w]
Small(k) == k <= 4
\* refused programs: every storage and number with one way in (all ways in the thorough tier and nearest the limits)
RefusedProbes(s) ==
  LET ws == Ways(s)
      nums == SetToSortSeq(Refused(s), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
      AllWays(kd) == Tier # "quick" \/ kd \in Near(s) \cap {<<Width(s), 1>>} \/ kd = <<0, 0>> IN
  FlattenSeq([i \in 1..Len(nums) |->
     IF AllWays(nums[i]) THEN [j \in 1..Len(ws) |-> Probe(s, "", nums[i][1], nums[i][2], ws[j])]
     ELSE <<Probe(s, "", nums[i][1], nums[i][2], ws[1]), Probe(s, "", nums[i][1], nums[i][2], ws[1 + (((i * 5) + Pick) % Len(ws))])>>])
WrittenProbes(s) ==
  LET ws == Ways(s) IN
  SelectSeq([i \in 1..Len(Written) |-> Probe(s, Written[i].t, Written[i].k, Written[i].d,
                                              IF Admits(s, Written[i].k, Written[i].d) THEN "run" ELSE ws[1 + ((i + Pick) % Len(ws))])],
            LAMBDA p : ~(s \in Wrappers /\ p.k = 0 /\ p.d = -1))
\* admitted programs are run
AdmittedProbes(s) ==
  LET nums == SetToSeq({kd \in Canon : Admits(s, kd[1], kd[2]) /\ kd # <<0, -1>>}) IN
  [i \in 1..Len(nums) |-> Probe(s, "", nums[i][1], nums[i][2], "run")]
\* each way in must admit an ordinary type (so that a refusal means something)
Controls(s) == [j \in 1..Len(Ways(s)) |-> Probe(s, "", 3, 0, Ways(s)[j])]
Probes == FlattenSeq([i \in 1..Len(Stores) |-> RefusedProbes(Stores[i]) \o WrittenProbes(Stores[i]) \o AdmittedProbes(Stores[i]) \o Controls(Stores[i])])

\* ---- what an admitted program stores: up to six different numbers
RECURSIVE Alt(_)                                  \* 0b...0101 with k bits at most
Alt(k) == IF k <= 0 THEN <<>> ELSE IF k = 1 THEN <<1>> ELSE BAdd(Pow2(IF k % 2 = 1 THEN k - 1 ELSE k - 2), Alt(k - 2))
Vals(k, d) ==
  LET n == Num(k, d)
      c == << <<>>, BPred(n), <<1>>, Alt(k), IF k > 1 THEN Pow2(k - 1) ELSE <<>>, IF BLt(<<1>>, n) THEN BPred(BPred(n)) ELSE <<>> >>
      ok == SelectSeq(c, LAMBDA x : BLt(x, n)) IN
  SelectSeq([i \in 1..Len(ok) |-> IF \E j \in 1..(i - 1) : ok[j] = ok[i] THEN <<-1>> ELSE ok[i]], LAMBDA x : x # <<-1>>)
Lens(s, k, d) == IF s \in Wrappers THEN <<1>> ELSE LET e == Epb(Width(s), Bits(k, d)) IN <<e, e + 1, 2 * e + 1>>

\* ---- the model: choose a probe, compile it, run it
VARIABLES i, p, pc
vars == <<i, p, pc>>
W == 8
Init == i = 0 /\ p = <<>> /\ pc = "start"
Next == \/ pc = "start" /\ i' \in 1..W /\ p' = p /\ pc' = "spread"
        \/ pc = "spread" /\ (LET q == Probes IN \E j \in {j \in 1..Len(q) : j % W = i % W} : i' = j /\ p' = q[j]) /\ pc' = "chosen"
        \/ pc = "chosen" /\ i' = i /\ p' = p /\ pc' = IF Admits(p.store, p.k, p.d) THEN "admitted" ELSE "refused"
Spec == Init /\ [][Next]_vars

\* the arithmetic agrees with the primary definitions
WidthOK == LET b == Bits(p.k, p.d) IN AtLeastTwo(p.k, p.d) => b = LeastBits(Num(p.k, p.d))
AdmitOK == Admits(p.store, p.k, p.d)
             <=> /\ BCmp(Num(p.k, p.d), Pow2(Width(p.store))) <= 0
                 /\ p.store \in Wrappers \/ BCmp(<<1>>, Num(p.k, p.d)) < 0
FitOK   == (pc = "admitted" /\ p.store \in Vectors) =>
             /\ Bits(p.k, p.d) \in 1..Width(p.store) /\ Epb(Width(p.store), Bits(p.k, p.d)) >= 1
             /\ \A x \in ToSet(Vals(p.k, p.d)) : BLt(x, Pow2(Bits(p.k, p.d)))
             /\ \A m \in 1..3 : Blocks(Lens(p.store, p.k, p.d)[m], Epb(Width(p.store), Bits(p.k, p.d))) = m
Strings(q) == [j \in 1..Len(q) |-> BShow(q[j])]
Out == ndJsonSerialize(OutDir \o "/" \o ToString(i) \o ".json",
         <<[id |-> i, store |-> p.store, ty |-> p.ty, k |-> p.k, d |-> p.d, way |-> p.way, n |-> BShow(Num(p.k, p.d)), admit |-> IF pc = "admitted" THEN 1 ELSE 0,
            lens |-> IF pc = "admitted" THEN Lens(p.store, p.k, p.d) ELSE <<>>, vals |-> IF pc = "admitted" THEN Strings(Vals(p.k, p.d)) ELSE <<>>]>>)
Inv == pc \in {"admitted", "refused"} => WidthOK /\ AdmitOK /\ FitOK /\ Out
=============================================================================
