------------------------------ MODULE Breakout ------------------------------
(***************************************************************************)
(* C15: breakout probabilities as tallies over the history.                *)
(*                                                                         *)
(* st.tot[colour]     bars seen after a candle of that colour              *)
(* st.hit[lvl][c][d]  of those, bars on which the level was met            *)
(* st.val[lvl][c][d]  <<hits, total>> at the last hit: the shown frequency *)
(* c is 1 after a rising candle, 2 after a falling one; d is 1 for the     *)
(* high side, 2 for the low side.                                          *)
(***************************************************************************)
EXTENDS Windows

BreakoutKinds == {"BreakoutProbability"}

Levels == 1..5
Freq(v) == IF v[2] = 0 THEN Z ELSE NMul("100", NFrac(v[1], v[2]))
AtLeast(v, w) ==   \* frequency v >= frequency w, exactly
  v[1] * (IF w[2] = 0 THEN 1 ELSE w[2]) >= w[1] * (IF v[2] = 0 THEN 1 ELSE v[2])
NoTally == [tot |-> <<0, 0>>, win |-> 0, loss |-> 0,
            hit |-> [lv \in Levels |-> <<<<0, 0>>, <<0, 0>>>>],
            val |-> [lv \in Levels |-> <<<<<<0, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0>>>>>>]]
LinesOf(n) == IF n < 1 THEN 1 ELSE IF n > 5 THEN 5 ELSE n     \* how many lines a number of lines means
NoLine == [price |-> Z, per |-> Z, up |-> FALSE]

Tally(st, c, H, W) ==   \* H[lv], W[lv]: was the level met above / below
  IF c = 0 THEN st
  ELSE LET tot == [st.tot EXCEPT ![c] = @ + 1]
           hit == [lv \in Levels |-> [st.hit[lv] EXCEPT ![c] =
                     <<@[1] + (IF H[lv] THEN 1 ELSE 0), @[2] + (IF W[lv] THEN 1 ELSE 0)>>]]
           val == [lv \in Levels |-> [st.val[lv] EXCEPT ![c] =
                     << IF H[lv] THEN <<hit[lv][c][1], tot[c]>> ELSE @[1],
                        IF W[lv] THEN <<hit[lv][c][2], tot[c]>> ELSE @[2] >>]]
       IN  [st EXCEPT !.tot = tot, !.hit = hit, !.val = val]

BreakoutStep(k, p, B, i, st, L) ==
  IF i = 1 THEN {[st |-> NoTally, out |-> [Win |-> <<Z, Z>>, Loss |-> <<Z, Z>>], list |-> <<>>]}
  ELSE
  LET h == B.h[i]  l == B.l[i]  h1 == B.h[i-1]  l1 == B.l[i-1]
      step == NMul(B.c[i], NDiv(p.Step, "100"))
      X(lv) == NMul(NOf(lv - 1), step)
      c == IF NLt(B.o[i-1], B.c[i-1]) THEN 1 ELSE IF NLt(B.c[i-1], B.o[i-1]) THEN 2 ELSE 0
      MayLt(a, b, lv) == IF lv = 1 \/ (B.ex /\ NExact(NDiv(p.Step, "100")) /\ NExact(a) /\ NExact(b)) THEN {NLt(a, b)} ELSE NMayLt(a, b, B.mp)
      Hi(lv) == MayLt(NAdd(h1, X(lv)), h, lv)
      Lo(lv) == MayLt(NSub(l1, X(lv)), l, lv)
      Judge(s) ==   \* the side judged more probable; a falling or neutral bar judges by the falling tallies
        LET g == IF c = 1 THEN 1 ELSE 2
            up == AtLeast(s.val[1][g][1], s.val[1][g][2])
        IN  IF up THEN {NLe(h1, h)}
            ELSE IF NEq(h1, l1) THEN {NLe(h1, h), NLe(l, l1)}  \* both sides are one price
            ELSE {NLe(l, l1)}
      Line(s, lv, d) ==
        IF lv <= LinesOf(p.Lines) /\ c > 0 /\ s.val[lv][c][1][1] > 0 /\ s.val[lv][c][2][1] > 0
        THEN [price |-> IF d = 1 THEN NAdd(h, X(lv)) ELSE NSub(l, X(lv)),
              per |-> Freq(s.val[lv][c][d]), up |-> d = 1]
        ELSE NoLine
  IN UNION { LET s == Tally(st, c, <<a1, a2, a3, a4, a5>>, <<b1, b2, b3, b4, b5>>)
             IN { LET s2 == IF w THEN [s EXCEPT !.win = @ + 1] ELSE [s EXCEPT !.loss = @ + 1]
                  IN [st |-> s2,
                      out |-> [Win |-> <<NOf(s2.win), Z>>, Loss |-> <<NOf(s2.loss), Z>>],
                      list |-> [j \in 1..10 |-> IF j <= 5 THEN Line(s, j, 1) ELSE Line(s, j - 5, 2)]]
                  : w \in Judge(s) }
     : a1 \in Hi(1), a2 \in Hi(2), a3 \in Hi(3), a4 \in Hi(4), a5 \in Hi(5),
       b1 \in Lo(1), b2 \in Lo(2), b3 \in Lo(3), b4 \in Lo(4), b5 \in Lo(5) }
=============================================================================
