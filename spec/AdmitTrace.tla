---------------------------- MODULE AdmitTrace ----------------------------
(* C21, C07.  What the compiler and the admitted programs did, against      *)
(* Admit.  Rule "admit": a program compiles exactly when the storage admits *)
(* its type, and an admitted program reads back what it stored.             *)
(* Rule "dens": after shrinking, the storage has ceil(n / epb) blocks.      *)
EXTENDS Density, FiniteSets, Sequences, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Rules  == ToSet(ndJsonDeserialize(IOEnv.CHECK_FILE)[1].rules)
Width(s) == CASE s = "vec_u8" -> 8 [] s = "vec_u16" -> 16 [] s \in {"vec_u32", "smallvec_u32"} -> 32
              [] s = "vec_u64" -> 64 [] s = "vec_u128" -> 128 [] s = "packed_u8" -> 8 [] s = "packed_u16" -> 16
Wrappers == {"packed_u8", "packed_u16"}
Admits(s, k, d) == IF s \in Wrappers THEN AtMostPow(k, d, Width(s)) ELSE Admissible(k, d, Width(s))

VARIABLES tid, l
vars == <<tid, l>>
Ev == Traces[tid].e[l]
H  == Traces[tid].h

\* the contents a way in leaves, as positions in the palette of nv values
Content(entry, n, nv) == [j \in 1..n |-> IF entry \in {"elem", "resize"} THEN 1 ELSE ((j - 1) % nv) + 1]
AnyAll(q, x) == (IF \E j \in 1..Len(q) : q[j] = x THEN 1 ELSE 0) + (IF \A j \in 1..Len(q) : q[j] = x THEN 2 ELSE 0)
RunOK(e, r) ==
  IF H.mod \in Wrappers
  THEN r.entry = "pack" /\ r.n = e.nv /\ r.read = [j \in 1..e.nv |-> j] /\ r.blocks * 8 = Width(H.mod)
  ELSE LET q == Content(r.entry, r.n, e.nv) IN
       /\ r.n \in ToSet(e.lens) /\ r.read = q
       /\ r.raw = (IF r.entry = "push" THEN q ELSE <<>>)
       /\ r.ans = [x \in 1..e.nv |-> AnyAll(q, x)]
\* 3 sizes by push, one by each other way
Complete(e) == IF H.mod \in Wrappers THEN Len(e.runs) = 1 ELSE Len(e.runs) = 11 /\ [m \in 1..3 |-> e.lens[m]] = [m \in 1..3 |-> SelectSeq(e.runs, LAMBDA r : r.entry = "push")[m].n]
AdmitRule(e) ==
  /\ e.built = (IF Admits(H.mod, e.k, e.d) THEN 1 ELSE 0)
  /\ (e.built = 1 /\ e.way = "run") => e.ok = 1 /\ Complete(e) /\ \A j \in 1..Len(e.runs) : RunOK(e, e.runs[j])
DensRule(e) ==
  (e.built = 1 /\ e.way = "run" /\ H.mod \notin Wrappers /\ Admits(H.mod, e.k, e.d)) =>
     /\ e.ok = 1
     /\ \A j \in 1..Len(e.runs) : e.runs[j].blocks = Blocks(e.runs[j].n, Epb(Width(H.mod), Bits(e.k, e.d)))

Step == LET e == Ev IN
  /\ TRUE = ("admit" \in Rules => AdmitRule(e))
  /\ TRUE = ("dens" \in Rules => DensRule(e))
\* the first step only spreads the work over TLC's workers
W == 32
Init == tid \in (-(IF Len(Traces) < W THEN Len(Traces) ELSE W))..(-1) /\ l = 1
Next == \/ tid < 0 /\ l = 1 /\ tid' \in {t \in 1..Len(Traces) : t % W = (-tid) % W} /\ l' = 1
        \/ tid > 0 /\ l <= Len(Traces[tid].e) /\ Step /\ l' = l + 1 /\ tid' = tid
        \/ tid > 0 /\ l > Len(Traces[tid].e) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
