-------------------------------- MODULE Stops --------------------------------
(***************************************************************************)
(* C12: trailing stops as ratchet-and-flip machines.                       *)
(*                                                                         *)
(* A stop is compared with closes strictly.  When every number that went   *)
(* into a stop so far is a short binary fraction the comparison is exact   *)
(* (st.ex); otherwise a near tie may go either way, and the machine        *)
(* branches: the values published afterwards tell which branch was taken.  *)
(***************************************************************************)
EXTENDS Windows

StopKinds == {"SuperTrend", "PivotPointSuperTrend", "UTBot"}

Lt(ex, B, a, b) == IF ex THEN {NLt(a, b)} ELSE NMayLt(a, b, B.mp)

(* --- SuperTrend -------------------------------------------------------- *)
(* Trend 1: the stop is the lower line and only rises while the closes stay *)
(* above it; trend -1: the stop is the upper line and only falls.           *)
SuperTrendStep(p, B, i, st) ==
  LET a0 == AtrStep(B, p.AtrPeriod, i, IF i = 1 THEN Z ELSE st.a)
      n0 == NatrStep(B, p.AtrPeriod, i, IF i = 1 THEN Z ELSE st.n)
      w0 == Push(IF i = 1 THEN <<>> ELSE st.w, NatrOf(B, p.AtrPeriod, i, n0), p.AtrPeriod)
      atr == IF p.ChangeAtr THEN a0 ELSE Mean(w0)
      scale == IF p.ChangeAtr THEN B.mp ELSE NMul("1000", B.mp)
      band == NMul(NOf(p.Multiplier), atr)
      rawUp == NSub(Hl2(B, i), band)
      rawDn == NAdd(Hl2(B, i), band)
      ex == /\ IF i = 1 THEN B.ex ELSE st.ex
            /\ \A x \in {atr, rawUp, rawDn, a0} : NExact(x)
  IN
  IF i = 1
  THEN Ret([a |-> a0, n |-> n0, w |-> w0, up |-> Z, dn |-> Z, trend |-> 1, ex |-> ex],
           [UpTrend |-> <<Z, Z>>, UpTrendBegin |-> <<Z, Z>>, DownTrend |-> <<Z, Z>>, DownTrendBegin |-> <<Z, Z>>])
  ELSE UNION { LET
         up == IF above THEN NMax(rawUp, st.up) ELSE rawUp
         dn == IF below THEN NMin(rawDn, st.dn) ELSE rawDn
         t  == IF flip THEN -st.trend ELSE st.trend
       IN {[st |-> [a |-> a0, n |-> n0, w |-> w0, up |-> up, dn |-> dn, trend |-> t, ex |-> ex],
            out |-> [UpTrend |-> <<up, scale>>, DownTrend |-> <<dn, scale>>,
                     UpTrendBegin   |-> <<IF flip /\ t = 1 THEN up ELSE Z, scale>>,
                     DownTrendBegin |-> <<IF flip /\ t = -1 THEN dn ELSE Z, scale>>],
            flip |-> flip]}
       : above \in Lt(ex, B, st.up, B.c[i-1]),
         below \in Lt(ex, B, B.c[i-1], st.dn),
         flip \in IF st.trend = 1 THEN Lt(ex, B, B.c[i], st.up) ELSE Lt(ex, B, st.dn, B.c[i]) }

(* --- Pivot-point SuperTrend -------------------------------------------- *)
PivotAt(B, i, n) ==   \* the pivot confirmed at bar i: the high one first, 0 if none
  IF i < 2 * n + 1 THEN Z
  ELSE IF NEq(B.h[i - n], MaxAt(B.h, i, 2 * n + 1)) THEN B.h[i - n]
  ELSE IF NEq(B.l[i - n], MinAt(B.l, i, 2 * n + 1)) THEN B.l[i - n]
  ELSE Z
PpstOut(prev, t, stop, s) ==
  [UpTrend        |-> <<IF t = 1 /\ prev = 1 THEN stop ELSE Z, s>>,
   UpTrendBegin   |-> <<IF t = 1 /\ prev = -1 THEN stop ELSE Z, s>>,
   DownTrend      |-> <<IF t = -1 /\ prev = -1 THEN stop ELSE Z, s>>,
   DownTrendBegin |-> <<IF t = -1 /\ prev = 1 THEN stop ELSE Z, s>>]
PpstStep(p, B, i, st) ==
  LET a0  == AtrStep(B, p.AtrPeriod, i, IF i = 1 THEN Z ELSE st.a)
      pp  == IF i = 1 THEN Z ELSE PivotAt(B, i, p.Period)
      c0  == IF i = 1 THEN Z ELSE st.c
      c   == IF NEq(pp, Z) THEN c0 ELSE IF NEq(c0, Z) THEN pp
             ELSE NDiv(NAdd(NMul("2", c0), pp), "3")
      band == NMul(p.Factor, a0)
      rawUp == NSub(c, band)
      rawDn == NAdd(c, band)
      s  == B.mp
      ex == /\ IF i = 1 THEN B.ex ELSE st.ex
            /\ \A x \in {c, band, a0} : NExact(x)
  IN
  IF i = 1
  THEN Ret([a |-> a0, c |-> Z, up |-> Z, dn |-> Z, trend |-> 0, ex |-> ex], PpstOut(0, 0, Z, s))
  ELSE UNION { LET
         up == IF above THEN NMax(rawUp, st.up) ELSE rawUp
         dn == IF below THEN NMin(rawDn, st.dn) ELSE rawDn
         t  == IF over THEN 1 ELSE IF under THEN -1 ELSE st.trend
       IN Ret([a |-> a0, c |-> c, up |-> up, dn |-> dn, trend |-> t, ex |-> ex],
              PpstOut(st.trend, t, IF t = 1 THEN up ELSE dn, s))
       : above \in Lt(ex, B, st.up, B.c[i-1]), below \in Lt(ex, B, B.c[i-1], st.dn),
         over \in Lt(ex, B, st.dn, B.c[i]), under \in Lt(ex, B, B.c[i], st.up) }

(* --- UT Bot ------------------------------------------------------------- *)
UTBotStep(p, B, i, st) ==
  LET a0 == AtrStep(B, p.AtrPeriod, i, IF i = 1 THEN Z ELSE st.a)
      loss == NMul(NOf(p.Period), a0)
      x  == B.c[i]
      ex == /\ IF i = 1 THEN B.ex ELSE st.ex
            /\ NExact(a0) /\ NExact(loss)
      Out(s) == [Close |-> <<x, Z>>, Value |-> Price(B, s)]
  IN
  IF i = 1 THEN Ret([a |-> a0, s |-> Z, ex |-> ex], Out(Z))
  ELSE UNION { LET s == IF above /\ above1 THEN NMax(st.s, NSub(x, loss))
                        ELSE IF below /\ below1 THEN NMin(st.s, NAdd(x, loss))
                        ELSE IF above THEN NSub(x, loss) ELSE NAdd(x, loss)
               IN Ret([a |-> a0, s |-> s, ex |-> ex], Out(s))
       : above \in Lt(ex, B, st.s, x), above1 \in Lt(ex, B, st.s, B.c[i-1]),
         below \in Lt(ex, B, x, st.s), below1 \in Lt(ex, B, B.c[i-1], st.s) }

StopStep(k, p, B, i, st, L) ==
  CASE k = "SuperTrend" -> SuperTrendStep(p, B, i, st)
    [] k = "PivotPointSuperTrend" -> PpstStep(p, B, i, st)
    [] k = "UTBot" -> UTBotStep(p, B, i, st)
=============================================================================
