------------------------------ MODULE Counting ------------------------------
(* C13: the averages of the counting strategies, and the counts themselves. *)
EXTENDS Windows

CountingKinds == {"TraderXO", "EMAVegas", "ReversalSignals"}

(* Nine closes in a row on one side of the close four bars earlier; an      *)
(* equal close counts as not below.                                         *)
ReversalStep(B, i, st) ==
  LET below == NLt(B.c[i], B.c[i-4])
      dn == IF i <= 4 THEN 0 ELSE IF below THEN (IF i = 5 THEN 0 ELSE st.dn) + 1 ELSE 0
      up == IF i <= 4 THEN 0 ELSE IF below THEN 0 ELSE (IF i = 5 THEN 0 ELSE st.up) + 1
      buy  == \/ NLe(B.l[i], B.l[i-3]) /\ NLe(B.l[i], B.l[i-2])
              \/ NLt(B.l[i-1], B.l[i-3]) /\ NLe(B.l[i-1], B.l[i-2])
      sell == \/ NLe(B.h[i-3], B.h[i]) /\ NLe(B.h[i-2], B.h[i])
              \/ NLe(B.h[i-3], B.h[i-1]) /\ NLe(B.h[i-2], B.h[i-1])
  IN  {[st |-> [dn |-> dn, up |-> up],
        out |-> <<>>,
        side |-> IF dn = 9 /\ buy THEN "BUY" ELSE IF up = 9 /\ sell THEN "SELL" ELSE "HOLD"]}

CountingStep(k, p, B, i, st, L) ==
  LET E(n, per) == EmaStep(per, i, IF i = 1 THEN Z ELSE st[n], B.c[i]) IN
  CASE k = "TraderXO" ->
         LET f == E("f", p.Fast)  s == E("s", p.Slow)
         IN  Ret([f |-> f, s |-> s], [Fast |-> Price(B, f), Slow |-> Price(B, s)])
    [] k = "EMAVegas" ->
         LET v == E("v", p.Period)  s1 == E("s1", p.Short1)  s2 == E("s2", p.Short2)
             l1 == E("l1", p.Long1)  l2 == E("l2", p.Long2)
         IN  Ret([v |-> v, s1 |-> s1, s2 |-> s2, l1 |-> l1, l2 |-> l2],
                 [Value |-> Price(B, v), Short1Value |-> Price(B, s1), Short2Value |-> Price(B, s2),
                  Long1Value |-> Price(B, l1), Long2Value |-> Price(B, l2)])
    [] k = "ReversalSignals" -> ReversalStep(B, i, st)
=============================================================================
