---------------------------- MODULE Differences ----------------------------
(* C09: differences of averages, and the Ichimoku lines.                    *)
EXTENDS Windows

DifferenceKinds == {"Macd", "APO", "PPO", "AO", "ChaikinOscillator", "VolumeOscillator", "Ichimoku"}

(* Money-flow volume of one bar; a bar without range contributes nothing. *)
MoneyFlow(B, i) ==
  NMul(B.v[i], DivZ(NSub(NSub(B.c[i], B.l[i]), NSub(B.h[i], B.c[i])), NSub(B.h[i], B.l[i])))

DifferenceStep(k, p, B, i, st, L) ==
  LET E(n, per, x) == EmaStep(per, i, IF i = 1 THEN x ELSE st[n], x) IN
  CASE k = "Macd" ->
         LET a == E("a", p.Short, B.c[i])
             b == E("b", p.Long, B.c[i])
             f == NSub(a, b)
             s == E("s", p.Signal, f)
         IN  Ret([a |-> a, b |-> b, s |-> s],
                 [DIF |-> Price(B, f), DEA |-> Price(B, s), Macd |-> Price(B, NMul("2", NSub(f, s)))])
    [] k = "APO" ->
         LET a == E("a", p.Fast, B.c[i])  b == E("b", p.Slow, B.c[i])
         IN  Ret([a |-> a, b |-> b], [Value |-> Price(B, NSub(a, b))])
    [] k = "AO" ->
         LET a == E("a", 5, Hl2(B, i))  b == E("b", 34, Hl2(B, i))
         IN  Ret([a |-> a, b |-> b], [Value |-> Price(B, NSub(a, b))])
    [] k = "PPO" ->
         LET a == E("a", p.Fast, B.c[i])
             b == E("b", p.Slow, B.c[i])
             v == NMul("100", DivZ(NSub(a, b), b))
             s == E("s", p.Signal, v)
         IN  Ret([a |-> a, b |-> b, s |-> s],
                 [PPO |-> Pct(v), Signal |-> Pct(s), Histogram |-> Pct(NSub(v, s))])
    [] k = "ChaikinOscillator" ->
         LET ad == NAdd(IF i = 1 THEN Z ELSE st.ad, MoneyFlow(B, i))
             a  == E("a", p.Fast, ad)
             b  == E("b", p.Slow, ad)
         IN  Ret([ad |-> ad, a |-> a, b |-> b], [Value |-> <<NSub(a, b), B.mv>>, AD |-> <<ad, B.mv>>])
    [] k = "VolumeOscillator" ->
         LET a == E("a", p.Short, B.v[i])  b == E("b", p.Long, B.v[i])
         IN  Ret([a |-> a, b |-> b], [Value |-> Pct(NMul("100", DivZ(NSub(a, b), b)))])
    [] k = "Ichimoku" ->
         LET Mid(n) == Half(NAdd(MaxAt(B.h, i, n), MinAt(B.l, i, n)))
             cv == Mid(p.Conversion)
             bs == Mid(26)
         IN  Ret(<<>>, [ConversionLine |-> Price(B, cv), BaseLine |-> Price(B, bs),
                        LeadingSpanA |-> Price(B, Half(NAdd(cv, bs))),
                        LeadingSpanB |-> Price(B, Mid(p.SpanB)),
                        LaggingLine |-> <<IF i > p.Lagging THEN B.c[i - p.Lagging] ELSE Z, Z>>])
=============================================================================
