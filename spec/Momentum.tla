------------------------------ MODULE Momentum ------------------------------
(* C08: momentum oscillators.                                               *)
EXTENDS Windows

MomentumKinds == {"Rsi", "StochRsi", "Stochastic", "Kdj", "WilliamsR", "Cci", "AiCoinCCI",
                  "MoneyFlowIndex", "ta.CCI", "ta.AiCoinCCI", "ta.Stochastic", "ComputeCCI"}

(* RSI with Wilder smoothing: undefined (0) for the first p bars. *)
RsiStep(p, S, i, st) ==
  LET x  == IF i = 1 THEN Z ELSE NSub(S[i], S[i-1])
      up == NMax(x, Z)
      dn == NMax(NNeg(x), Z)
      g  == IF i = 1 THEN Z
            ELSE IF i <= p + 1 THEN NAdd(st.g, NDiv(up, NOf(p)))
            ELSE NDiv(NAdd(NMul(NOf(p - 1), st.g), up), NOf(p))
      d  == IF i = 1 THEN Z
            ELSE IF i <= p + 1 THEN NAdd(st.d, NDiv(dn, NOf(p)))
            ELSE NDiv(NAdd(NMul(NOf(p - 1), st.d), dn), NOf(p))
      s  == NAdd(g, d)
  IN  [g |-> g, d |-> d,
       v |-> IF p < 2 \/ i <= p THEN Z
             ELSE IF NEq(s, Z) THEN Z
             ELSE NMul("100", NDiv(g, s))]

(* Position of the newest of some percentages within their own range: 0 if  *)
(* they do not differ but for rounding, and open if they hardly differ.     *)
InRange(w) ==
  LET hi == NMaxSeq(w)  lo == NMinSeq(w)  r == NSub(hi, lo) IN
  IF NLt(r, "1e-11") THEN Z
  ELSE IF NLt(r, "0.0001") THEN "?"
  ELSE NMul("100", NDiv(NSub(w[Len(w)], lo), r))

(* A deviation of 0 gives 0; between different bars whose rounded prices    *)
(* average to the same it is 0 only up to rounding, and that is left open.  *)
CciBy(factor, B, w, ma, md, exact) ==
  IF NEq(md, Z) THEN (IF exact THEN Z ELSE "?")
  ELSE NDivU(NSub(w[Len(w)], ma), NMul(factor, md), NMul("10", B.mp))
CciOf(B, w, ma, md, exact) == CciBy("0.015", B, w, ma, md, exact)
AbsDev(w, m) == Mean([j \in 1..Len(w) |-> NAbs(NSub(w[j], m))])

MomentumStep(k, p, B, i, st, L) ==
  CASE k = "Rsi" ->
         LET r == RsiStep(p.Period, B.c, i, st) IN Ret(r, [Value |-> Pct(r.v)])
    [] k = "StochRsi" ->
         LET r   == RsiStep(p.RsiLength, B.c, i, IF i = 1 THEN st ELSE st.r)
             w   == Push(IF i = 1 THEN <<>> ELSE st.w, r.v, p.StochLength)
             raw == InRange(w)
             kk  == EmaStep(p.SmoothK, i, IF i = 1 THEN Z ELSE st.k, raw)
             kr  == Res(kk, L.K)
             dd  == EmaStep(p.SmoothD, i, IF i = 1 THEN Z ELSE st.d, kr)
         IN  Ret([r |-> r, w |-> w, k |-> kr, d |-> dd], [K |-> Pct(kk), D |-> Pct(dd)])
    [] k \in {"Stochastic", "ta.Stochastic"} ->
         LET v == StochAt(B, i, p.Period)
             w == Push(IF i = 1 THEN <<>> ELSE st.w, v, 3)
         IN  Ret([w |-> w], [K |-> Pct(v), D |-> Pct(Mean(w))])
    [] k = "Kdj" ->
         LET hh  == MaxAt(B.h, i, p.Period)
             ll  == MinAt(B.l, i, p.Period)
             r   == NSub(hh, ll)
             rsv == IF NEq(r, Z) THEN "100" ELSE NMul("100", NDiv(NSub(B.c[i], ll), r))
             pk  == IF i = 1 THEN "50" ELSE st.k
             pd  == IF i = 1 THEN "50" ELSE st.d
             kk  == NDiv(NAdd(NMul("2", pk), rsv), "3")
             dd  == NDiv(NAdd(NMul("2", pd), kk), "3")
         IN  IF i < p.Period
             THEN Ret([k |-> "50", d |-> "50"],
                      [RSV |-> Pct(Z), K |-> Pct("50"), D |-> Pct("50"), J |-> Pct("50")])
             ELSE Ret([k |-> kk, d |-> dd],
                      [RSV |-> Pct(rsv), K |-> Pct(kk), D |-> Pct(dd),
                       J |-> Pct(NSub(NMul("3", kk), NMul("2", dd)))])
    [] k = "WilliamsR" ->
         LET hh == MaxAt(B.h, i, p.Period)  ll == MinAt(B.l, i, p.Period)
         IN  Ret(<<>>, [Value |-> Pct(NMul("-100", DivZ(NSub(hh, B.c[i]), NSub(hh, ll))))])
    [] k \in {"Cci", "ta.CCI"} ->   \* the average runs over SmaPeriod, the deviation over Period
         LET tps == [j \in 1..Len(LastN(B.c, i, IF p.Period > p.SmaPeriod THEN p.Period ELSE p.SmaPeriod)) |->
                       LET n == Len(LastN(B.c, i, IF p.Period > p.SmaPeriod THEN p.Period ELSE p.SmaPeriod))
                       IN  IF k = "Cci" THEN Hlc3(B, i - n + j) ELSE B.c[i - n + j]]
             n   == Len(tps)
             ma  == Mean(LastN(tps, n, p.SmaPeriod))
             md  == AbsDev(LastN(tps, n, p.Period), ma)
             exact == SameBars(B, i - n + 1, i) \/ (B.ex /\ \A j \in 1..n : NExact(tps[j]))
         IN  Ret(<<>>, [Value |-> Pct(IF i < p.Period THEN Z ELSE CciOf(B, tps, ma, md, exact))])
    [] k \in {"AiCoinCCI", "ta.AiCoinCCI"} ->
         LET w  == LastN(B.c, i, p.Period)
             ma == Mean(w)
             f  == IF k = "AiCoinCCI" THEN "0.015" ELSE p.Factor
         IN  Ret(<<>>, [Value |-> Pct(IF i < p.Period THEN Z ELSE CciBy(f, B, w, ma, AbsDev(w, ma), B.ex \/ SameBars(B, i - p.Period + 1, i)))])
    [] k = "ComputeCCI" ->   \* close = c, average = o, deviation = v
         Ret(<<>>, [Value |-> <<DivZ(NSub(B.c[i], B.o[i]), NMul("0.015", B.v[i])), "1">>])
    [] k = "MoneyFlowIndex" ->
         LET mf == NMul(Hlc3(B, i), B.v[i])
             before == IF i = 1 THEN Z ELSE st.mf
             same == i > 1 /\ B.h[i] = B.h[i-1] /\ B.l[i] = B.l[i-1] /\ B.c[i] = B.c[i-1] /\ B.v[i] = B.v[i-1]
             exact == B.ex /\ NExact(Hlc3(B, i)) /\ NExact(before)
         IN  UNION { LET
                 wp == Push(IF i = 1 THEN <<>> ELSE st.wp, IF up THEN mf ELSE Z, p.Period)
                 wn == Push(IF i = 1 THEN <<>> ELSE st.wn, IF up THEN Z ELSE mf, p.Period)
                 sp == NSumSeq(wp)
                 sn == NSumSeq(wn)
               IN  Ret([mf |-> mf, wp |-> wp, wn |-> wn],
                       [Value |-> Pct(NMul("100", DivZ(sp, NAdd(sp, sn))))])
             : up \in IF same \/ exact \/ i = 1 THEN {NLe(before, mf)} ELSE NMayLe(before, mf, Z) }
=============================================================================
