------------------------------ MODULE Structure ------------------------------
(***************************************************************************)
(* C14: the smart-money structure machine.                                 *)
(*                                                                         *)
(* Two scales run the same swing detector: the configured length ("long")  *)
(* and length 5 ("short").  A swing level is live until a close crosses    *)
(* it; the crossing draws one line from the swing to the breaking bar,     *)
(* labelled by the trend of its own scale, and records an order block.     *)
(*                                                                         *)
(* Positions are bars counted from 1; a swing is [y: level, x: bar,        *)
(* live: not broken yet].  The state carries the lines drawn so far; what  *)
(* is published at a bar is the last line drawn over it.                   *)
(***************************************************************************)
EXTENDS Windows, SequencesExt

StructureKinds == {"SMC"}
LineFields == {"HighBOSShort", "HighCHoCHShort", "HighBOSLong", "HighCHoCHLong",
               "LowBOSShort", "LowChoCHShort", "LowBOSLong", "LowChoCHLong", "EQH", "EQL"}
Short == 5
Listed == 6         \* order blocks a list may hold after a bar

NoSwing == [y |-> Z, x |-> 1, live |-> TRUE]
None == <<"none", Z>>
Start(B) == [os |-> [long |-> 0, short |-> 0], trend |-> [long |-> 0, short |-> 0],
          hi |-> [long |-> NoSwing, short |-> NoSwing], lo |-> [long |-> NoSwing, short |-> NoSwing],
          bull |-> <<>>, bear |-> <<>>, lines |-> <<>>,
          up |-> <<Z, 1>>, dn |-> <<Z, 1>>,               \* trailing extremes and their bars
          eqh |-> <<Z, 1>>, eql |-> <<Z, 1>>,             \* last equal-high/low candidates
          sw |-> [sh |-> None, wh |-> None, sl |-> None, wl |-> None],
          a |-> Z]

(* The swing detector: 0 after the bar n back is above everything since,   *)
(* 1 after it is below everything since; a change of side is a new swing.  *)
Side(B, i, n, prev) ==
  IF i - n < 1 THEN prev
  ELSE IF NLt(MaxAt(B.h, i, n), B.h[i - n]) THEN 0
  ELSE IF NLt(B.l[i - n], MinAt(B.l, i, n)) THEN 1
  ELSE prev

(* Order block of a break: among the bars from the swing to the break that *)
(* are not wider than twice the average range, the oldest one holding the  *)
(* extreme (lowest low after an upward break, highest high after a         *)
(* downward one); bar 2 when there is none.                                *)
Block(B, i, from, top, narrow) ==
  LET ok == { j \in from..i : j \in narrow }
      x  == IF top THEN NMaxSeq([q \in 1..Cardinality(ok) |-> B.h[SetToSeq(ok)[q]]])
                   ELSE NMinSeq([q \in 1..Cardinality(ok) |-> B.l[SetToSeq(ok)[q]]])
      at == { j \in ok : NEq(IF top THEN B.h[j] ELSE B.l[j], x) }
  IN  [top |-> top, at |-> IF ok = {} THEN 2 ELSE CHOOSE j \in at : \A q \in at : j <= q]
AddBlock(q, b) == IF \E j \in 1..Len(q) : q[j] = b THEN q ELSE <<b>> \o q
Keep(B, i, q) ==
  LET live(j) == /\ j <= Listed
                 /\ ~(q[j].top /\ NLt(B.h[q[j].at], B.c[i]))
                 /\ ~(~q[j].top /\ NLt(B.c[i], B.c[q[j].at]))
      idx == { j \in 1..Len(q) : live(j) }
  IN  [n \in 1..Cardinality(idx) |-> q[SetToSortSeq(idx, <)[n]]]

CrossUp(B, i, y) == NLt(y, B.c[i]) /\ NLt(B.c[i-1], y)
CrossDn(B, i, y) == NLt(B.c[i], y) /\ NLt(y, B.c[i-1])

(* One break: s is the state, sc the scale, up the direction. *)
Broken(B, i, s, sc, up, narrow) ==
  LET w == IF up THEN s.hi[sc] ELSE s.lo[sc]
      ch == IF up THEN s.trend[sc] < 0 ELSE s.trend[sc] > 0
      f == IF up THEN (IF sc = "short" THEN (IF ch THEN "HighCHoCHShort" ELSE "HighBOSShort")
                                       ELSE (IF ch THEN "HighCHoCHLong" ELSE "HighBOSLong"))
                 ELSE (IF sc = "short" THEN (IF ch THEN "LowChoCHShort" ELSE "LowBOSShort")
                                       ELSE (IF ch THEN "LowChoCHLong" ELSE "LowBOSLong"))
      b == Block(B, i, w.x, ~up, narrow)
      s1 == [s EXCEPT !.lines = Append(@, <<f, w.x, i, w.y>>), !.trend[sc] = IF up THEN 1 ELSE -1]
      s2 == IF up THEN [s1 EXCEPT !.hi[sc].live = FALSE] ELSE [s1 EXCEPT !.lo[sc].live = FALSE]
  IN  IF sc = "short" THEN [s2 EXCEPT !.bull = AddBlock(@, b)] ELSE [s2 EXCEPT !.bear = AddBlock(@, b)]
Breaks(B, i, s, sc, up) ==
  LET w == IF up THEN s.hi[sc] ELSE s.lo[sc]
      o == IF up THEN s.hi.long ELSE s.lo.long
  IN  /\ w.live
      /\ IF up THEN CrossUp(B, i, w.y) ELSE CrossDn(B, i, w.y)
      /\ sc = "short" => ~NEq(w.y, o.y)     \* the long scale draws it
TryBreak(B, i, s, sc, up, narrow) == IF Breaks(B, i, s, sc, up) THEN Broken(B, i, s, sc, up, narrow) ELSE s

(* New swings and trailing extremes. *)
Swings(B, i, s, p) ==
  LET oL == Side(B, i, p.Swing, s.os.long)
      oS == Side(B, i, Short, s.os.short)
      top == oL = 0 /\ s.os.long # 0    btm == oL = 1 /\ s.os.long # 1
      itop == oS = 0 /\ s.os.short # 0  ibtm == oS = 1 /\ s.os.short # 1
      S(n, col) == [y |-> col[i - n], x |-> i - n, live |-> TRUE]
      up0 == IF top THEN <<B.h[i - p.Swing], i - p.Swing>> ELSE s.up
      dn0 == IF btm THEN <<B.l[i - p.Swing], i - p.Swing>> ELSE s.dn
  IN  [s EXCEPT !.os = [long |-> oL, short |-> oS],
         !.hi.long  = IF top  THEN S(p.Swing, B.h) ELSE @,
         !.hi.short = IF itop THEN S(Short, B.h) ELSE @,
         !.lo.long  = IF btm  THEN S(p.Swing, B.l) ELSE @,
         !.lo.short = IF ibtm THEN S(Short, B.l) ELSE @,
         !.up = IF NLe(up0[1], B.h[i]) THEN <<B.h[i], i>> ELSE up0,
         !.dn = IF NLe(B.l[i], dn0[1]) THEN <<B.l[i], i>> ELSE dn0]

(* Equal highs and lows: two successive pivots closer than a tenth of the  *)
(* average range per threshold step are joined.                            *)
Equal(B, i, s, p, wide, a) ==
  LET n == p.Confirm
      isH == i > 2 * n /\ NEq(B.h[i - n], MaxAt(B.h, i, 2 * n + 1))
      isL == i > 2 * n /\ NEq(B.l[i - n], MinAt(B.l, i, 2 * n + 1))
      tol == NMul(a, NFrac(p.Threshold, 10))
      Near(x, y) == LET d == NAbs(NSub(x, y)) IN
        IF NEq(a, Z) \/ (B.ex /\ NExact(tol)) THEN NLt(d, tol)
        ELSE IF Cardinality(NMayLt(d, tol, B.mp)) = 2 THEN wide ELSE NLt(d, tol)
      nearH == Near(B.h[i-n], s.eqh[1])
      nearL == Near(B.l[i-n], s.eql[1])
      sH == IF ~isH THEN s
            ELSE [s EXCEPT !.eqh = <<B.h[i - n], i - n>>,
                           !.lines = IF nearH THEN Append(@, <<"EQH", s.eqh[2], i - n, s.eqh[1]>>) ELSE @]
  IN  IF ~p.Eq THEN s
      ELSE IF ~isL THEN sH
      ELSE [sH EXCEPT !.eql = <<B.l[i - n], i - n>>,
                      !.lines = IF nearL THEN Append(@, <<"EQL", s.eql[2], i - n, s.eql[1]>>) ELSE @]

StrongWeak(B, s) ==
  LET u == <<B.t[s.up[2]], s.up[1]>>  d == <<B.t[s.dn[2]], s.dn[1]>>  t == s.trend.long IN
  [s EXCEPT !.sw = [sh |-> IF t < 0 THEN u ELSE @.sh, wh |-> IF t < 0 THEN @.wh ELSE u,
                    sl |-> IF t > 0 THEN d ELSE @.sl, wl |-> IF t > 0 THEN @.wl ELSE d]]

StructureStep(k, p, B, i, st, L) ==
  LET s0 == IF i = 1 THEN Start(B) ELSE st
      a  == AtrStep(B, 200, i, s0.a)
      s1 == IF i = 2 THEN [s0 EXCEPT !.a = a, !.up = <<B.h[2], 1>>, !.dn = <<B.l[2], 1>>]
            ELSE [s0 EXCEPT !.a = a]
      \* bars seen so far that are narrower than twice the average range of their time
      atrs == IF i = 1 THEN <<a>> ELSE Append(st.atrs, a)
      nar(wide) == { j \in 1..i :
             LET m == NMayLt(NSub(B.h[j], B.l[j]), NMul("2", atrs[j]), B.mp)
             IN  IF Cardinality(m) = 2 /\ ~NEq(atrs[j], Z) THEN wide ELSE NLt(NSub(B.h[j], B.l[j]), NMul("2", atrs[j])) }
      Run(wide) ==
        IF i - 1 < p.Swing \/ i = 1 THEN s1
        ELSE LET n  == nar(wide)
                 s2 == Swings(B, i, s1, p)
                 s3 == TryBreak(B, i, s2, "short", TRUE, n)
                 s4 == TryBreak(B, i, s3, "long", TRUE, n)
                 s5 == TryBreak(B, i, s4, "short", FALSE, n)
                 s6 == TryBreak(B, i, s5, "long", FALSE, n)
                 s7 == [s6 EXCEPT !.bull = Keep(B, i, @), !.bear = Keep(B, i, @)]
             IN  StrongWeak(B, Equal(B, i, s7, p, wide, a))
      WithAtrs(s) == [f \in DOMAIN s \cup {"atrs"} |-> IF f = "atrs" THEN atrs ELSE s[f]]
  IN { [st |-> WithAtrs(s), out |-> [f \in LineFields |-> Free], blocks |-> s] : s \in {Run(TRUE), Run(FALSE)} }

(* What the lines show at the end: at each bar the last line drawn over it. *)
LineAt(lines, f, j) ==
  LET over == { q \in 1..Len(lines) : lines[q][1] = f /\ lines[q][2] <= j /\ j <= lines[q][3] }
  IN  IF over = {} THEN Z ELSE lines[CHOOSE q \in over : \A r \in over : r <= q][4]
=============================================================================
