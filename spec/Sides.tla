-------------------------------- MODULE Sides --------------------------------
(***************************************************************************)
(* C11: signal rules, evaluated on what the indicator published.           *)
(* SideSet(k, p, T, i) is the set of signals allowed on bar i of trace T.  *)
(***************************************************************************)
EXTENDS Windows

One(buy, sell) == {IF buy THEN "BUY" ELSE IF sell THEN "SELL" ELSE "HOLD"}
(* a crosses b: strictly on one side before, strictly on the other now *)
Up(a1, b1, a, b) == NLt(a1, b1) /\ NLt(b, a)
Dn(a1, b1, a, b) == NLt(b1, a1) /\ NLt(a, b)

CamarillaSides(p, T, i) ==   \* against the levels of the last matching day of the other scale
  LET seen == { j \in 1..i : \E q \in 1..Len(T.aux.oday) : T.aux.oday[q] = T.aux.day[j] }
      last == CHOOSE j \in seen : \A q \in seen : q <= j
      at   == CHOOSE q \in 1..Len(T.aux.oday) :
                /\ T.aux.oday[q] = T.aux.day[last]
                /\ \A r \in 1..(q-1) : T.aux.oday[r] # T.aux.day[last]
      h4 == NAdd(T.aux.oc[at], NDiv(NMul("1.1", NSub(T.aux.oh[at], T.aux.ol[at])), "2"))
      c  == T.c[i]  o == T.o[i]  e == T.out.EMA[i]
  IN  IF seen = {} THEN {"HOLD"}
      ELSE UNION { One(NLt(c, e) /\ over /\ opened, NLt(e, c) /\ under /\ openedOver)
                   : over \in NMayLt(h4, c, "1"), opened \in NMayLt(o, h4, "1"),
                     under \in NMayLt(c, h4, "1"), openedOver \in NMayLt(h4, o, "1") }

VegasCross(O, i, up) == \E j \in (i - 10)..(i - 1) :
  IF up THEN Up(O.Short2Value[j-1], O.Long2Value[j-1], O.Short2Value[j], O.Long2Value[j])
        ELSE Dn(O.Short2Value[j-1], O.Long2Value[j-1], O.Short2Value[j], O.Long2Value[j])

SideSet(k, p, T, i) ==
  LET O == T.out
      Cross(a, b)  == IF i = 1 THEN {"HOLD"}
                      ELSE One(Up(a[i-1], b[i-1], a[i], b[i]), Dn(a[i-1], b[i-1], a[i], b[i]))
      Line(v)      == [j \in 1..T.n |-> v]
      \* leaving the low / high zone: falling through lo buys, rising through hi sells
      Zone(v, lo, hi) == IF i = 1 THEN {"HOLD"}
                         ELSE One(NLt(v[i], lo) /\ NLt(lo, v[i-1]), NLt(hi, v[i]) /\ NLt(v[i-1], hi))
  IN
  CASE k = "Macd" ->
         IF i = 1 THEN {"HOLD"}
         ELSE One(NLt(Z, O.DIF[i]) /\ NLt(Z, O.DEA[i]) /\ Up(O.DIF[i-1], O.DEA[i-1], O.DIF[i], O.DEA[i]),
                  NLt(O.DIF[i], Z) /\ NLt(O.DEA[i], Z) /\ Dn(O.DIF[i-1], O.DEA[i-1], O.DIF[i], O.DEA[i]))
    [] k = "Rsi" ->
         IF i = 1 THEN {"HOLD"}
         ELSE One(NLt(O.Value[i], "20") /\ NLt("20", O.Value[i-1]), NLt(O.Value[i], "80") /\ NLt("80", O.Value[i-1]))
    [] k \in {"StochRsi", "Stochastic"} -> Cross(O.K, O.D)
    [] k = "PPO" -> Cross(O.PPO, O.Signal)
    [] k = "Kdj" ->
         IF i = 1 THEN {"HOLD"}
         ELSE One(NLt(O.D[i], O.K[i]) /\ NLt(O.D[i], O.J[i]) /\ NLt(O.K[i-1], O.D[i-1]) /\ NLt(O.J[i-1], O.D[i-1]),
                  NLt(O.K[i], O.D[i]) /\ NLt(O.J[i], O.D[i]) /\ NLt(O.D[i-1], O.K[i-1]) /\ NLt(O.D[i-1], O.J[i-1]))
    [] k \in {"Cci", "AiCoinCCI"} -> Zone(O.Value, "-100", "100")
    [] k = "WilliamsR" -> Zone(O.Value, "-80", "-20")
    [] k = "MoneyFlowIndex" -> Zone(O.Value, "10", "90")
    [] k \in {"APO", "AO", "ChaikinOscillator"} -> Cross(O.Value, Line(Z))
    [] k = "Boll" ->
         IF i = 1 THEN {"HOLD"}
         ELSE One(Up(T.c[i-1], O.Upper[i-1], T.c[i], O.Upper[i]), Dn(T.c[i-1], O.Lower[i-1], T.c[i], O.Lower[i]))
    [] k \in {"Donchian", "Keltner"} -> Cross(T.c, O.Middle)
    [] k = "Ichimoku" ->
         IF i <= p.Conversion \/ i = 1 THEN {"HOLD"}
         ELSE One(/\ NLt(O.LeadingSpanA[i], T.c[i]) /\ NLt(O.LeadingSpanB[i], T.c[i])
                  /\ NLt(T.c[i-1], O.LeadingSpanA[i-1]) /\ NLt(T.c[i-1], O.LeadingSpanB[i-1]),
                  /\ NLt(T.c[i], O.LeadingSpanA[i]) /\ NLt(T.c[i], O.LeadingSpanB[i])
                  /\ NLt(O.LeadingSpanA[i-1], T.c[i-1]) /\ NLt(O.LeadingSpanB[i-1], T.c[i-1]))
    [] k = "ProjectionOscillator" ->
         IF i = 1 THEN {"HOLD"} ELSE One(NLt(O.Spo[i], O.Po[i]), NLt(O.Po[i], O.Spo[i]))
    [] k = "StochasticHeat" -> Cross(O.Slow, O.Fast)
    [] k \in {"SuperTrend", "PivotPointSuperTrend"} ->
         IF i = 1 THEN {"HOLD"} ELSE One(~NEq(O.UpTrendBegin[i], Z), ~NEq(O.DownTrendBegin[i], Z))
    [] k = "UTBot" -> Cross(T.c, O.Value)
    [] k = "TraderXO" ->   \* the first bar of a new ordering, equal averages keep the old one
         LET ord(j) == IF j = 1 THEN 0 ELSE IF NLt(O.Slow[j], O.Fast[j]) THEN 1
                       ELSE IF NLt(O.Fast[j], O.Slow[j]) THEN -1 ELSE 0
             prior == { j \in 1..(i-1) : ord(j) # 0 }
             was == IF prior = {} THEN 0 ELSE ord(CHOOSE j \in prior : \A q \in prior : q <= j)
         IN  One(ord(i) = 1 /\ was # 1, ord(i) = -1 /\ was # -1)
    [] k = "EMAVegas" ->
         IF i <= 11 THEN {"HOLD"}
         ELSE One(/\ NLt(O.Short1Value[i], O.Value[i])
                  /\ NLt(O.Long1Value[i], O.Short1Value[i]) /\ NLt(O.Long2Value[i], O.Short1Value[i])
                  /\ NLt(O.Long1Value[i], O.Short2Value[i]) /\ NLt(O.Long2Value[i], O.Short2Value[i])
                  /\ T.b[i] /\ VegasCross(O, i, TRUE),
                  /\ NLt(O.Value[i], O.Short1Value[i])
                  /\ NLt(O.Short1Value[i], O.Long1Value[i]) /\ NLt(O.Short1Value[i], O.Long2Value[i])
                  /\ NLt(O.Short2Value[i], O.Long1Value[i]) /\ NLt(O.Short2Value[i], O.Long2Value[i])
                  /\ ~T.b[i] /\ VegasCross(O, i, FALSE))
    [] k = "Camarilla" -> CamarillaSides(p, T, i)
=============================================================================
