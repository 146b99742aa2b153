------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* Building blocks shared by the indicator machines.                       *)
(*                                                                         *)
(* A market B is a record of columns: B.o, B.h, B.l, B.c, B.v are          *)
(* sequences of numbers (see Num.tla), B.b the candle colours, B.t the     *)
(* times; B.mp and B.mv bound the magnitude of its prices and volumes, and *)
(* B.ex says that sums and differences of its columns are exact in IEEE    *)
(* doubles, so that exact ties of the definition are exact ties in the     *)
(* implementation.                                                         *)
(*                                                                         *)
(* Bars are numbered from 1.  A machine reads only bars 1..i at step i.    *)
(*                                                                         *)
(* An output is <<v, s>>: the implementation must publish v up to the      *)
(* rounding of a quantity of magnitude s.  <<v, s, "sq", base, sign>>      *)
(* constrains the square of (published - base) instead: used for values    *)
(* which are a square root of a difference of large numbers.               *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets

Z == "0"
LastN(S, i, p) == SubSeq(S, IF i > p THEN i - p + 1 ELSE 1, i)
Push(q, x, p) == IF Len(q) < p THEN Append(q, x) ELSE Append(Tail(q), x)
Mean(w) == NDiv(NSumSeq(w), NOf(Len(w)))
Half(x) == NMul(x, "0.5")
Price(B, v)  == <<v, B.mp>>
Pct(v)       == <<v, "100">>
Free          == <<"?", "1">>

(* An unknown value is the one the implementation showed. *)
Res(v, logged) == IF v = "?" THEN logged ELSE v

(* Quotients: a zero divisor gives 0; "?" when the divisor is only known   *)
(* up to rounding errors of a quantity of magnitude m.                     *)
DivZ(a, b) == IF NEq(b, Z) THEN Z ELSE NDiv(a, b)
DivG(a, b, m) == IF NEq(b, Z) THEN Z ELSE NDivU(a, b, m)
SameBars(B, from, to) ==
  \A j \in from..to : B.h[j] = B.h[to] /\ B.l[j] = B.l[to] /\ B.c[j] = B.c[to]

(* Moving averages, one step: i values seen, prev the average before. *)
EmaStep(p, i, prev, x) ==
  IF i = 1 THEN x
  ELSE NDiv(NAdd(NMul("2", x), NMul(NOf(p - 1), prev)), NOf(p + 1))
RmaStep(p, i, prev, x) ==
  IF i = 1 THEN x
  ELSE IF i <= p THEN NDiv(NAdd(NMul(NOf(i - 1), prev), x), NOf(i))
  ELSE NDiv(NAdd(NMul(NOf(p - 1), prev), x), NOf(p))
SmaAt(S, i, p) == Mean(LastN(S, i, p))
WmaOf(w, p) ==
  IF Len(w) < p THEN Z
  ELSE NDiv(NSumSeq([k \in 1..p |-> NMul(NOf(k), w[k])]), NFrac(p * (p + 1), 2))
WmaAt(S, i, p) == IF i < p THEN Z ELSE WmaOf(LastN(S, i, p), p)
FullMean(S, i, p) == IF i < p THEN Z ELSE SmaAt(S, i, p)

MaxAt(S, i, p) == NMaxSeq(LastN(S, i, p))
MinAt(S, i, p) == NMinSeq(LastN(S, i, p))

Hlc3(B, i) == NDiv(NAdd(NAdd(B.h[i], B.l[i]), B.c[i]), "3")
Hl2(B, i)  == Half(NAdd(B.h[i], B.l[i]))

(* True range; the gap from the previous close counts in both directions. *)
TrGap(B, i) ==
  NMax(NSub(B.h[i], B.l[i]),
       NMax(NAbs(NSub(B.h[i], B.c[i-1])), NAbs(NSub(B.l[i], B.c[i-1]))))
TrFrom0(B, i) == IF i = 1 THEN Z ELSE TrGap(B, i)                     \* ta.TRange
TrFull(B, i)  == IF i = 1 THEN NSub(B.h[1], B.l[1]) ELSE TrGap(B, i)   \* Atr indicator

(* ta.Atr: 0 until p+1 bars are seen, then Wilder's average. *)
AtrStep(B, p, i, prev) ==
  IF p = 1 THEN TrFrom0(B, i)
  ELSE IF i <= p THEN Z
  ELSE IF i = p + 1
    THEN RmaStep(p, i, Mean([k \in 1..p |-> TrFrom0(B, k)]), TrFrom0(B, i))
    ELSE RmaStep(p, i, prev, TrFrom0(B, i))

(* ta.Natr before the division by the close. *)
NatrStep(B, p, i, prev) ==
  IF p = 1 \/ i <= p THEN Z
  ELSE IF i = p + 1 THEN Mean([k \in 1..p |-> TrFrom0(B, k + 1)])
  ELSE RmaStep(p, i, prev, TrFrom0(B, i))
NatrOf(B, p, i, s) == IF p = 1 THEN TrFrom0(B, i) ELSE NMul("100", DivZ(s, B.c[i]))

(* Fast stochastic: position of the close in the range of the last p bars. *)
StochAt(B, i, p) ==
  LET hh == MaxAt(B.h, i, p)  ll == MinAt(B.l, i, p)
  IN  NMul("100", DivZ(NSub(B.c[i], ll), NSub(hh, ll)))

(* Least-squares line through w[1..n] at x = 0..n-1: slope, intercept. *)
Fit(w) ==
  LET n   == Len(w)
      N   == NOf(n)
      sx  == NFrac(n * (n - 1), 2)
      sxx == NFrac(n * (n - 1) * (2 * n - 1), 6)
      sy  == NSumSeq(w)
      sxy == NSumSeq([k \in 1..n |-> NMul(NOf(k - 1), w[k])])
      m   == NDiv(NSub(NMul(N, sxy), NMul(sx, sy)), NSub(NMul(N, sxx), NMul(sx, sx)))
  IN  [m |-> m, b |-> NDiv(NSub(sy, NMul(m, sx)), N)]
(* ... through arbitrary points; slope 0 through a single abscissa. *)
FitXY(x, y) ==
  LET n   == Len(x)
      N   == NOf(n)
      sx  == NSumSeq(x)
      sy  == NSumSeq(y)
      sxx == NSumSeq([k \in 1..n |-> NMul(x[k], x[k])])
      sxy == NSumSeq([k \in 1..n |-> NMul(x[k], y[k])])
      d   == NSub(NMul(N, sxx), NMul(sx, sx))
      m   == IF NEq(d, Z) THEN Z ELSE NDiv(NSub(NMul(N, sxy), NMul(sx, sy)), d)
  IN  [m |-> m, b |-> NDiv(NSub(sy, NMul(m, sx)), N)]
RegAt(S, i, p) ==  \* value of the fitted line at the newest bar; 0 before the window is full
  IF i < p THEN Z ELSE LET f == Fit(LastN(S, i, p)) IN NAdd(f.b, NMul(f.m, NOf(p - 1)))

Ret(st, out) == {[st |-> st, out |-> out]}
=============================================================================
