-------------------------------- MODULE Scaling --------------------------------
(***************************************************************************)
(* Upscaling candles (C20).  A machine reads the candles of the source one *)
(* by one; it opens a group with the first candle, merges the following    *)
(* ones into it and emits it when it is complete.  A candle that is not    *)
(* one interval after the one before breaks the conversion.                *)
(*                                                                         *)
(* A candle is [t, o, h, l, c, v, a, n]: time (in units), prices, volume   *)
(* and amount, number of trades (all Num strings).                         *)
(***************************************************************************)
EXTENDS Num, TLC

Fine(old, new) == old > 0 /\ new > old /\ new % old = 0
Start(old, new) == [old |-> old, new |-> new, n |-> 0, at |-> 0, in |-> 0, group |-> <<>>, out |-> <<>>, broken |-> ~Fine(old, new)]

Merge(g, c) == [g EXCEPT !.h = NMax(g.h, c.h), !.l = NMin(g.l, c.l), !.c = c.c,
                         !.v = NAdd(g.v, c.v), !.a = NAdd(g.a, c.a), !.n = NAdd(g.n, c.n)]
Feed(m, c) ==
  IF m.broken \/ (m.n > 0 /\ c.t # m.at + m.old) THEN [m EXCEPT !.broken = TRUE]
  ELSE LET g == IF m.in = 0 THEN c ELSE Merge(m.group, c)
           whole == m.in + 1 = m.new \div m.old
       IN  [m EXCEPT !.n = @ + 1, !.at = c.t, !.in = IF whole THEN 0 ELSE @ + 1,
                     !.group = IF whole THEN <<>> ELSE g,
                     !.out = IF whole THEN Append(@, g) ELSE @]
Refused(m) == m.broken \/ m.out = <<>>

(* The same, said at once. *)
Group(s, k, j) == SubSeq(s, (j - 1) * k + 1, j * k)
Whole(g) ==
  LET Col(f) == [x \in 1..Len(g) |-> g[x][f]] IN
  [t |-> g[1].t, o |-> g[1].o, h |-> NMaxSeq(Col("h")), l |-> NMinSeq(Col("l")), c |-> g[Len(g)].c,
   v |-> NSumSeq(Col("v")), a |-> NSumSeq(Col("a")),
   n |-> NSumSeq(Col("n"))]
Regular(s, old) == \A x \in 1..Len(s) - 1 : s[x + 1].t = s[x].t + old
Defined(old, new, s) == Fine(old, new) /\ Regular(s, old) /\ Len(s) >= new \div old
Definition(old, new, s) == [j \in 1..Len(s) \div (new \div old) |-> Whole(Group(s, new \div old, j))]
=============================================================================
