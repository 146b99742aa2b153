---------------------------- MODULE Directional ----------------------------
(* C26: vortex, directional movement, Camarilla, projection, heat.          *)
EXTENDS Windows

DirectionalKinds == {"Vortex", "ADX", "Camarilla", "ProjectionOscillator", "StochasticHeat"}

(* Directional movement: the larger of the two moves, if it is positive. *)
Moves(B, i) ==
  LET u == NSub(B.h[i], B.h[i-1])  d == NSub(B.l[i-1], B.l[i]) IN
  { [u |-> IF ud /\ NLt(Z, u) THEN u ELSE Z, d |-> IF du /\ NLt(Z, d) THEN d ELSE Z] :
      ud \in (IF B.ex THEN {NLt(d, u)} ELSE NMayLt(d, u, B.mp)),
      du \in (IF B.ex THEN {NLt(u, d)} ELSE NMayLt(u, d, B.mp)) }
Decay(s, len, x) == NAdd(NSub(s, NDiv(s, NOf(len))), x)

DirectionalStep(k, p, B, i, st, L) ==
  CASE k = "Vortex" ->   \* sums over the last Period bars that have a predecessor
         LET from == IF i - p.Period + 1 < 2 THEN 2 ELSE i - p.Period + 1
             n    == IF i = 1 THEN 0 ELSE i - from + 1
             Sum3(F(_)) == NSumSeq([j \in 1..n |-> F(from + j - 1)])
             Up(j) == NAbs(NSub(B.h[j], B.l[j-1]))
             Dn(j) == NAbs(NSub(B.l[j], B.h[j-1]))
             Tr(j) == TrGap(B, j)
             t    == Sum3(Tr)
         IN  IF i = 1 THEN Ret(<<>>, [PlusVi |-> <<Z, Z>>, MinusVi |-> <<Z, Z>>])
             ELSE Ret(<<>>, [PlusVi  |-> <<DivG(Sum3(Up), t, B.mp), "1">>,
                             MinusVi |-> <<DivG(Sum3(Dn), t, B.mp), "1">>])
    [] k = "ADX" ->
         UNION { LET
             tr == IF i = 1 THEN Z ELSE Decay(st.tr, p.Len, TrGap(B, i))
             up == IF i = 1 THEN Z ELSE Decay(st.up, p.Len, mv.u)
             dn == IF i = 1 THEN Z ELSE Decay(st.dn, p.Len, mv.d)
             on == i >= p.Period
             di1 == IF on THEN NMul("100", DivZ(up, tr)) ELSE Z
             di2 == IF on THEN NMul("100", DivZ(dn, tr)) ELSE Z
             dx == IF on THEN NMul("100", DivZ(NAbs(NSub(di1, di2)), NAdd(di1, di2))) ELSE Z
             w  == Push(IF i = 1 THEN <<>> ELSE st.w, dx, p.Len)
           IN Ret([tr |-> tr, up |-> up, dn |-> dn, w |-> w],
                  [DIPlus |-> Pct(di1), DIMins |-> Pct(di2), ADX |-> Pct(Mean(w))])
           : mv \in (IF i = 1 THEN {<<>>} ELSE Moves(B, i)) }
    [] k = "Camarilla" ->
         LET h == B.h[i]  l == B.l[i]  c == B.c[i]
             r == NMul(NSub(h, l), "1.1")
             U(n) == NAdd(c, NDiv(r, NOf(n)))
             D(n) == NSub(c, NDiv(r, NOf(n)))
             h4 == U(2)
             h5 == NMul(NDiv(h, l), c)
             h6 == NAdd(h5, NMul("1.168", NSub(h5, h4)))
             e  == EmaStep(p.Period, i, IF i = 1 THEN c ELSE st.e, c)
             W(v) == <<v, NMax(B.mp, NMul("5", h5))>>
         IN  Ret([e |-> e],
                 [EMA |-> Price(B, e), Pivot |-> Price(B, Hlc3(B, i)),
                  High1 |-> Price(B, U(12)), High2 |-> Price(B, U(6)), High3 |-> Price(B, U(4)),
                  High4 |-> Price(B, h4), High5 |-> W(h5), High6 |-> W(h6),
                  Low1 |-> Price(B, D(12)), Low2 |-> Price(B, D(6)), Low3 |-> Price(B, D(4)),
                  Low4 |-> Price(B, D(2)), Low5 |-> W(NSub(NMul("2", c), h5)),
                  Low6 |-> W(NSub(NMul("2", c), h6))])
    [] k = "ProjectionOscillator" ->
         LET xs   == [j \in 1..Len(LastN(B.h, i, p.Period)) |-> NOf(i - Len(LastN(B.h, i, p.Period)) + j - 1)]
             mh   == FitXY(xs, LastN(B.h, i, p.Period)).m
             ml   == FitXY(xs, LastN(B.l, i, p.Period)).m
             wh   == Push(IF i = 1 THEN <<>> ELSE st.wh, NAdd(B.h[i], NMul(mh, NOf(i - 1))), p.Period)
             wl   == Push(IF i = 1 THEN <<>> ELSE st.wl, NAdd(B.l[i], NMul(ml, NOf(i - 1))), p.Period)
             pu   == NMaxSeq(wh)
             pl   == NMinSeq(wl)
             \* bars without a range or a slope since as far back as the projections in the window see
             z    == \A j \in (IF i > 2 * p.Period - 1 THEN i - 2 * p.Period + 2 ELSE 1)..i :
                       B.h[j] = B.h[i] /\ B.l[j] = B.h[i]
             r    == NSub(pu, pl)
             po   == IF NEq(r, Z) /\ z THEN Z
                     ELSE NMul("100", NDivU(NSub(B.c[i], pl), r, NMul("10", NMax(B.mp, NMax(NAbs(pu), NAbs(pl))))))
             pr   == Res(po, L.Po)
             spo  == EmaStep(p.Smooth, i, IF i = 1 THEN pr ELSE st.s, pr)
             \* the rounding of a projection grows with the bar's number; over a small range it weighs more
             e    == IF NEq(r, Z) THEN "100"
                     ELSE NMax("100", NDiv(NMul(NMul(NAdd("100", NAbs(pr)), B.mp), NMul("1e-5", NOf(i))), NAbs(r)))
             es   == EmaStep(p.Smooth, i, IF i = 1 THEN e ELSE st.m, e)
         IN  Ret([wh |-> wh, wl |-> wl, s |-> spo, m |-> es],
                 [Po |-> <<po, e>>, Spo |-> <<spo, es>>])
    [] k = "StochasticHeat" ->
         \* the sum of 28 stochastics, smoothed; smoothing a sum is summing the smoothed
         LET s  == NSumSeq([j \in 1..28 |-> StochAt(B, i, j * p.Increment)])
             ws == Push(IF i = 1 THEN <<>> ELSE st.ws, s, p.Fast)
             e  == EmaStep(p.Fast, i, IF i = 1 THEN s ELSE st.e, s)
             f  == NDiv(CASE p.Ma = "SMA" -> Mean(ws) [] p.Ma = "EMA" -> e
                          [] p.Ma = "WMA" -> WmaOf(ws, p.Fast) [] OTHER -> s, "100")
             wf == Push(IF i = 1 THEN <<>> ELSE st.wf, f, p.Slow)
             g  == EmaStep(p.Slow, i, IF i = 1 THEN f ELSE st.g, f)
             sl == CASE p.Ma = "SMA" -> Mean(wf) [] p.Ma = "EMA" -> g [] OTHER -> WmaOf(wf, p.Slow)
         IN  Ret([ws |-> ws, e |-> e, wf |-> wf, g |-> g], [Fast |-> Pct(f), Slow |-> Pct(sl)])
=============================================================================
