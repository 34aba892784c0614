------------------------------ MODULE IterSem ------------------------------
(* A double-ended, exact-size iterator over a finite sequence: the state is *)
(* the window [lo, hi) of elements not yet produced.  Calls are encoded as  *)
(* <<code, arg>>.  IterStep gives the result and the next window; the       *)
(* consuming calls leave an empty window.                                   *)
(*   0 next, 1 next_back, 2 nth(n), 3 nth_back(n), 4 size_hint, 5 len,      *)
(*   6 count, 7 last, 8 collect, 9 rev().collect, 10 skip(n).collect,       *)
(*   11 step_by(n+1).collect, 12 by_ref().take(n).collect, 13 fold,         *)
(*   14 clone (continue on the clone), 15 rfold,                            *)
(*   16 position of an x, 17 rposition, 18 for_each, 19 any is x,           *)
(*   20 all but x, 21 find x, 22 rfind x: x = n, and those that stop at the  *)
(*   first x leave what lies behind it                                      *)
EXTENDS SeqOps

IWin(lo, hi) == [lo |-> lo, hi |-> hi]
INone        == <<"n">>
ISome(x)     == <<"s", x>>
IR(r, it)    == [r |-> r, it |-> it]

\* elements lo..hi-1 (0-based) of s
Window(s, it) == SubSeq(s, it.lo + 1, it.hi)

Strided(s, k) == [j \in 1..((Len(s) + k - 1) \div k) |-> s[(j - 1) * k + 1]]

IterStep(s, it, c, n) ==
  LET left == it.hi - it.lo  rest == Window(s, it)  done == IWin(it.hi, it.hi) IN
  CASE c = 0  -> IF left > 0 THEN IR(ISome(s[it.lo + 1]), IWin(it.lo + 1, it.hi)) ELSE IR(INone, it)
    [] c = 1  -> IF left > 0 THEN IR(ISome(s[it.hi]), IWin(it.lo, it.hi - 1)) ELSE IR(INone, it)
    [] c = 2  -> IF n < left THEN IR(ISome(s[it.lo + n + 1]), IWin(it.lo + n + 1, it.hi)) ELSE IR(INone, done)
    [] c = 3  -> IF n < left THEN IR(ISome(s[it.hi - n]), IWin(it.lo, it.hi - n - 1)) ELSE IR(INone, done)
    [] c = 4  -> IR(<<"h", left, left>>, it)
    [] c = 5  -> IR(<<"l", left>>, it)
    [] c = 6  -> IR(<<"l", left>>, done)
    [] c = 7  -> IR(IF left > 0 THEN ISome(s[it.hi]) ELSE INone, done)
    [] c = 8  -> IR(<<"q", rest>>, done)
    [] c = 9  -> IR(<<"q", Reverse(rest)>>, done)
    [] c = 10 -> IR(<<"q", IF n < left THEN SubSeq(rest, n + 1, left) ELSE <<>> >>, done)
    [] c = 11 -> IR(<<"q", Strided(rest, n + 1)>>, done)
    [] c = 12 -> IR(<<"q", IF n < left THEN SubSeq(rest, 1, n) ELSE rest>>,
                    IF n < left THEN IWin(it.lo + n, it.hi) ELSE done)
    [] c = 13 -> IR(<<"q", rest>>, done)
    [] c = 14 -> IR(<<"u">>, it)
    [] c = 15 -> IR(<<"q", Reverse(rest)>>, done)
    [] c = 18 -> IR(<<"q", rest>>, done)
    [] c \in {16, 19, 20, 21} ->
         LET k == SelectInSeq(rest, LAMBDA y : y = n) - 1  found == k >= 0 IN
         IR(CASE c = 16 -> IF found THEN <<"l", k>> ELSE INone
              [] c = 19 -> <<"l", IF found THEN 1 ELSE 0>>
              [] c = 20 -> <<"l", IF found THEN 0 ELSE 1>>
              [] c = 21 -> IF found THEN ISome(n) ELSE INone,
            IF found THEN IWin(it.lo + k + 1, it.hi) ELSE done)
    [] c \in {17, 22} ->
         LET k == SelectLastInSeq(rest, LAMBDA y : y = n) - 1  found == k >= 0 IN
         IR(IF ~ found THEN INone ELSE IF c = 17 THEN <<"l", k>> ELSE ISome(n),
            IF found THEN IWin(it.lo, it.lo + k) ELSE done)

\* A whole script of calls against recorded results: TRUE iff all results are
\* those of IterStep
RECURSIVE IterScriptOK(_, _, _, _, _)
IterScriptOK(s, it, script, results, k) ==
  IF k > Len(script) THEN TRUE
  ELSE LET x == IterStep(s, it, script[k][1], script[k][2]) IN
       /\ results[k] = x.r
       /\ IterScriptOK(s, x.it, script, results, k + 1)
=============================================================================
