------------------------------ MODULE Averages ------------------------------
(* C05: moving averages, as functions over a list and as indicators.       *)
EXTENDS Windows

AverageKinds == {"Sma", "Ma", "Ema", "Dema", "Rma",
                 "ta.Sma", "ta.MA", "ta.Ema", "ta.Dema", "ta.Rma", "ta.Wma"}

AverageStep(k, p, B, i, st, L) ==
  LET P == p.Period  x == B.c[i] IN
  CASE k \in {"Sma", "Ma", "ta.Sma"} ->
         Ret(<<>>, [Value |-> Price(B, SmaAt(B.c, i, P))])
    [] k = "ta.MA"  -> Ret(<<>>, [Value |-> Price(B, FullMean(B.c, i, P))])
    [] k = "ta.Wma" -> Ret(<<>>, [Value |-> Price(B, WmaAt(B.c, i, P))])
    [] k \in {"Ema", "ta.Ema"} ->
         LET e == EmaStep(P, i, IF i = 1 THEN x ELSE st.e, x)
         IN  Ret([e |-> e], [Value |-> Price(B, e)])
    [] k \in {"Dema", "ta.Dema"} ->
         LET e1 == EmaStep(P, i, IF i = 1 THEN x ELSE st.e1, x)
             e2 == EmaStep(P, i, IF i = 1 THEN e1 ELSE st.e2, e1)
         IN  Ret([e1 |-> e1, e2 |-> e2], [Value |-> Price(B, NSub(NMul("2", e1), e2))])
    [] k \in {"Rma", "ta.Rma"} ->
         LET r == RmaStep(P, i, IF i = 1 THEN x ELSE st.r, x)
         IN  Ret([r |-> r], [Value |-> Price(B, r)])
=============================================================================
