-------------------------------- MODULE Listing --------------------------------
(***************************************************************************)
(* Maintenance of a list of candles (C21).  A candle is <<time, identity>>;*)
(* two candles of one time are different candles.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Time(c) == c[1]
(* Candle by candle. *)
Deduped(s) ==
  LET F[n \in 0..Len(s)] ==
        IF n = 0 THEN [out |-> <<>>, seen |-> {}]
        ELSE LET a == F[n - 1] IN
             IF Time(s[n]) \in a.seen THEN a
             ELSE [out |-> Append(a.out, s[n]), seen |-> a.seen \cup {Time(s[n])}]
  IN  F[Len(s)].out
Inside(t, a, b) == t = a \/ (a < t /\ t < b)
Ranged(s, a, b) == SelectSeq(s, LAMBDA c : Inside(Time(c), a, b))
Ordered(s, down) == \A x \in 1..Len(s) - 1 : IF down THEN Time(s[x]) >= Time(s[x + 1]) ELSE Time(s[x]) <= Time(s[x + 1])
Count(s, c) == Cardinality({ x \in 1..Len(s) : s[x] = c })
Permuted(s, z) == Len(s) = Len(z) /\ \A x \in 1..Len(s) : Count(s, s[x]) = Count(z, s[x])
(* Sorting may leave candles of one time in any order. *)
IsSorting(s, down, z) == Permuted(s, z) /\ Ordered(z, down)
Sortings(s, down) ==
  { z \in { [x \in 1..Len(s) |-> s[p[x]]] : p \in { q \in [1..Len(s) -> 1..Len(s)] : \A x, y \in 1..Len(s) : x # y => q[x] # q[y] } } : Ordered(z, down) }
=============================================================================
