----------------------------- MODULE Volatility -----------------------------
(* C07: true range, ATR, deviations, Bollinger, Keltner, Ulcer.             *)
EXTENDS Windows

VolatilityKinds == {"Atr", "Chandelier", "ta.TRange", "ta.TrueRange", "ta.Atr", "ta.Natr",
                    "ta.SD", "ta.Variance", "ta.StdDev", "ta.Dev", "ta.MeanDeviation",
                    "Boll", "Keltner", "Ulcer"}

\* the rounding of prices of this magnitude, squared; a deviation is measured from the mean
P2(B) == NMul(B.mp, NMul(B.mp, "1e-6"))
VarOf(w) == LET m == Mean(w) IN Mean([j \in 1..Len(w) |-> LET d == NSub(w[j], m) IN NMul(d, d)])
DevOf(w, m) == Mean([j \in 1..Len(w) |-> NAbs(NSub(w[j], m))])
VarAt(S, i, p) == IF i < p THEN Z ELSE VarOf(LastN(S, i, p))

VolatilityStep(k, p, B, i, st, L) ==
  CASE k = "Atr" ->
         LET tr == TrFull(B, i)
             a  == RmaStep(p.Period, i, IF i = 1 THEN Z ELSE st.a, tr)
         IN  Ret([a |-> a], [TR |-> Price(B, tr), Atr |-> Price(B, a)])
    [] k = "Chandelier" ->
         LET a == RmaStep(p.Period, i, IF i = 1 THEN Z ELSE st.a, TrFull(B, i))
         IN  Ret([a |-> a], [Long  |-> Price(B, NSub(MaxAt(B.h, i, p.Exit), NMul("3", a))),
                             Short |-> Price(B, NAdd(MinAt(B.l, i, p.Exit), NMul("3", a)))])
    [] k \in {"ta.TRange", "ta.TrueRange"} -> Ret(<<>>, [Value |-> Price(B, TrFrom0(B, i))])
    [] k = "ta.Atr" ->
         LET a == AtrStep(B, p.Period, i, IF i = 1 THEN Z ELSE st.a)
         IN  Ret([a |-> a], [Value |-> Price(B, a)])
    [] k = "ta.Natr" ->
         LET s == NatrStep(B, p.Period, i, IF i = 1 THEN Z ELSE st.s)
         IN  Ret([s |-> s], [Value |-> <<NatrOf(B, p.Period, i, s), IF NEq(B.c[i], Z) THEN "1" ELSE NAbs(NDiv(NMul("100", B.mp), B.c[i]))>>])
    [] k = "ta.SD"       -> Ret(<<>>, [Value |-> <<VarOf(SubSeq(B.c, 1, i)), P2(B), "sq", Z, 1>>])
    [] k = "ta.Variance" -> Ret(<<>>, [Value |-> <<VarAt(B.c, i, p.Period), P2(B)>>])
    [] k = "ta.StdDev"   ->
         Ret(<<>>, [Value |-> <<NMul(VarAt(B.c, i, p.Period), NMul(p.Dev, p.Dev)),
                                NMul(P2(B), NMul(p.Dev, p.Dev)), "sq", Z, 1>>])
    [] k = "ta.Dev" ->
         Ret(<<>>, [Value |-> Price(B, IF i < p.Period THEN Z
                                       ELSE LET w == LastN(B.c, i, p.Period) IN DevOf(w, Mean(w)))])
    [] k = "ta.MeanDeviation" ->
         Ret(<<>>, [Value |-> Price(B, IF i < p.Period THEN Z
                                       ELSE DevOf(LastN(B.c, i, p.Period), B.o[i]))])
    [] k = "Boll" ->
         LET m == SmaAt(B.c, i, p.N)
             v == VarAt(B.c, i, p.N)
             w == NMul(v, NMul(NOf(p.K), NOf(p.K)))
             s == NMul(P2(B), NMax("1", NMul(NOf(p.K), NOf(p.K))))
         IN  Ret(<<>>, [Middle |-> Price(B, m), MD |-> <<v, P2(B), "sq", Z, 1>>,
                        Upper |-> <<w, s, "sq", m, 1>>, Lower |-> <<w, s, "sq", m, -1>>])
    [] k = "Keltner" ->
         LET a == RmaStep(p.Period, i, IF i = 1 THEN Z ELSE st.a, TrFull(B, i))
             e == EmaStep(p.Period, i, IF i = 1 THEN Z ELSE st.e, B.c[i])
         IN  Ret([a |-> a, e |-> e],
                 [Middle |-> Price(B, e), Upper |-> Price(B, NAdd(e, NMul("2", a))),
                  Lower |-> Price(B, NSub(e, NMul("2", a)))])
    [] k = "Ulcer" ->
         LET hh == MaxAt(B.c, i, p.Period)
             d  == NMul("100", NDiv(NSub(B.c[i], hh), hh))
             q  == EmaStep(p.Period, i, IF i = 1 THEN Z ELSE st.q, NMul(d, d))
         IN  Ret([q |-> q], [Value |-> <<q, "1", "sq", Z, 1>>])
=============================================================================
