------------------------------- MODULE Market -------------------------------
(***************************************************************************)
(* The system as a whole: a market grows bar by bar and every machine of   *)
(* a property group steps with it.  TLC explores all markets of length LEN *)
(* over a small alphabet of bars (or, with -simulate, random long ones),   *)
(* checks the invariants of the definitions below, and prints every        *)
(* complete market: the harness replays each of them through the           *)
(* implementation, and TraceIndicators validates what it published.        *)
(***************************************************************************)
EXTENDS Indicators, Json, IOUtils, SequencesExt

Group == IOEnv.GROUP
N == atoi(IOEnv.LEN)
Simulate == IOEnv.SIM = "1"      \* one random continuation instead of all
NBars == atoi(IOEnv.BARS)        \* how much of the alphabet is used

(* Opening, high, low, close, volume. *)
Degenerate == <<
  <<4, 4, 4, 4, 0>>,       \* nothing moves, nothing traded
  <<4, 4, 4, 4, 3>>,       \* nothing moves
  <<4, 6, 3, 5, 0>>,       \* moves, nothing traded
  <<6, 6, 6, 6, 2>>,       \* gap to another flat level
  <<4, 5, 3, 4, 2>>,
  <<5, 5, 2, 2, 4>> >>     \* falls onto its low
Ordinary == <<
  <<4, 4, 4, 4, 0>>,       \* flat, nothing traded
  <<4, 6, 3, 5, 2>>,       \* rise
  <<5, 6, 2, 4, 3>>,       \* fall
  <<8, 9, 7, 9, 2>>,       \* above everything, closing on its high
  <<2, 2, 1, 1, 1>>,       \* below everything, closing on its low
  <<4, 9, 1, 4, 5>>,       \* wide and undecided
  <<6, 6, 5, 5, 2>>,
  <<3, 4, 3, 4, 3>> >>
Alphabet == IF Group = "C24" THEN Degenerate ELSE Ordinary
Bars == SubSeq(Alphabet, 1, NBars)

K(kind, p) == [kind |-> kind, p |-> p]
NoPar == [none |-> 0]
PerP(n) == [Period |-> n]
Many(ks, ns) == SetToSeq({ K(k, PerP(n)) : k \in ks, n \in ns })
ConfigsOf(g) ==
  CASE g = "C05" -> Many({"Sma", "Ma", "Ema", "Rma", "ta.Sma", "ta.MA", "ta.Ema", "ta.Dema", "ta.Rma", "ta.Wma"}, {1, 3})
                        \o <<K("Dema", [Period |-> 3, ohlc |-> FALSE])>>
    [] g = "C06" -> Many({"ta.Max", "ta.Min", "ta.Highest", "ta.Lowest", "Donchian"}, {1, 2, 3})
                        \o SetToSeq({ K(k, [Left |-> a, Right |-> b]) : k \in {"ta.PivotHigh", "ta.PivotLow", "ta.PivotMax", "ta.PivotMin"},
                                                                        a \in {1, 2}, b \in {0, 1} })
    [] g = "C07" -> Many({"Atr", "ta.Atr", "ta.Natr", "ta.Variance", "ta.Dev", "Keltner", "Ulcer"}, {2, 3})
                        \o <<K("Chandelier", [Period |-> 2, Exit |-> 3]), K("Boll", [N |-> 3, K |-> 2]),
                             K("ta.TrueRange", NoPar), K("ta.SD", NoPar), K("ta.StdDev", [Period |-> 2, Dev |-> "2"])>>
    [] g = "C08" -> Many({"Rsi", "Stochastic", "WilliamsR", "Kdj", "MoneyFlowIndex", "AiCoinCCI"}, {2, 3})
                        \o <<K("StochRsi", [RsiLength |-> 2, StochLength |-> 2, SmoothK |-> 2, SmoothD |-> 2]),
                             K("Cci", [Period |-> 2, SmaPeriod |-> 3]), K("Cci", [Period |-> 3, SmaPeriod |-> 2])>>
    [] g = "C09" -> <<K("Macd", [Short |-> 2, Long |-> 3, Signal |-> 2]), K("Macd", [Short |-> 3, Long |-> 1, Signal |-> 2]),
                          K("APO", [Fast |-> 2, Slow |-> 3]), K("AO", NoPar), K("PPO", [Fast |-> 2, Slow |-> 3, Signal |-> 2]),
                          K("ChaikinOscillator", [Fast |-> 2, Slow |-> 3]), K("VolumeOscillator", [Short |-> 2, Long |-> 3]),
                          K("Ichimoku", [Conversion |-> 2, SpanB |-> 3, Lagging |-> 1]), K("Ichimoku", [Conversion |-> 1, SpanB |-> 2, Lagging |-> 3])>>
    [] g = "C10" -> <<K("Obv", NoPar), K("AD", NoPar), K("NVI", NoPar)>> \o
                        Many({"VPT", "ForceIndex", "EOM", "CMF", "Vwma"}, {1, 3})
    [] g = "C12" -> <<K("SuperTrend", [AtrPeriod |-> 2, Multiplier |-> 1, ChangeAtr |-> TRUE, ohlc |-> FALSE]),
                          K("SuperTrend", [AtrPeriod |-> 1, Multiplier |-> 1, ChangeAtr |-> TRUE, ohlc |-> TRUE]),
                          K("SuperTrend", [AtrPeriod |-> 2, Multiplier |-> 1, ChangeAtr |-> FALSE, ohlc |-> FALSE]),
                          K("PivotPointSuperTrend", [Period |-> 1, AtrPeriod |-> 2, Factor |-> "0.5", ohlc |-> FALSE]),
                          K("PivotPointSuperTrend", [Period |-> 2, AtrPeriod |-> 1, Factor |-> "1", ohlc |-> TRUE]),
                          K("UTBot", [Period |-> 1, AtrPeriod |-> 1, ohlc |-> FALSE]),
                          K("UTBot", [Period |-> 1, AtrPeriod |-> 2, ohlc |-> TRUE])>>
    [] g = "C13" -> <<K("TraderXO", [Fast |-> 1, Slow |-> 3, ohlc |-> FALSE]), K("TraderXO", [Fast |-> 3, Slow |-> 1, ohlc |-> TRUE]),
                          K("EMAVegas", [Period |-> 1, Short1 |-> 2, Short2 |-> 3, Long1 |-> 5, Long2 |-> 6, ohlc |-> FALSE]),
                          K("ReversalSignals", NoPar)>>
    [] g = "C14" -> <<K("SMC", [Swing |-> 3, Confirm |-> 1, Threshold |-> 1, Eq |-> TRUE]),
                          K("SMC", [Swing |-> 6, Confirm |-> 2, Threshold |-> 3, Eq |-> TRUE])>>
    [] g = "C15" -> <<K("BreakoutProbability", [Step |-> "25", Lines |-> 5, ohlc |-> FALSE]),
                          K("BreakoutProbability", [Step |-> "12.5", Lines |-> 2, ohlc |-> TRUE])>>
    [] g = "C23" -> <<K("HL2", NoPar), K("HLC3", NoPar), K("OHLC4", NoPar), K("GetOHLC", NoPar), K("HeikinAshi", NoPar)>>
    [] g = "C25" -> Many({"ta.LinearReg", "ta.LinearRegSlope", "ta.LinearRegIntercept", "ta.LinearRegAngle"}, {2, 3})
                        \o <<K("LinearRegressionCandles", [Length |-> 2, Smooth |-> 2, UseSma |-> TRUE, ohlc |-> FALSE]),
                             K("LinearRegressionCandles", [Length |-> 3, Smooth |-> 2, UseSma |-> FALSE, ohlc |-> TRUE])>>
    [] g = "C26" -> <<K("Vortex", PerP(2)), K("Vortex", PerP(3)), K("ADX", [Period |-> 2, Len |-> 2, ohlc |-> FALSE]),
                          K("ADX", [Period |-> 1, Len |-> 3, ohlc |-> TRUE]), K("Camarilla", PerP(2)),
                          K("ProjectionOscillator", [Period |-> 2, Smooth |-> 2]),
                          K("StochasticHeat", [Increment |-> 1, Fast |-> 2, Slow |-> 2, Ma |-> "SMA", PlotNum |-> 25])>>
    [] g = "C27" -> Many({"Diff", "ShiftRight", "Sum"}, {1, 2}) \o
                        <<K("Add", NoPar), K("Subtract", NoPar), K("Multiply", NoPar), K("Divide", NoPar), K("Abs", NoPar),
                          K("Cum", NoPar), K("Mean", NoPar), K("Cross", [At |-> "4"]), K("PercentDiff", PerP(1))>>

(* Kinds that raise signals, and indicators (as opposed to list functions). *)
ListFunctions == { "ta.Sma", "ta.MA", "ta.Ema", "ta.Dema", "ta.Rma", "ta.Wma", "ta.Atr", "ta.Natr", "ta.Variance",
                   "ta.Dev", "ta.TrueRange", "ta.SD", "ta.StdDev", "ta.LinearReg", "ta.LinearRegSlope",
                   "ta.LinearRegIntercept", "ta.LinearRegAngle", "ta.Max", "ta.Min", "ta.Highest", "ta.Lowest",
                   "ta.PivotHigh", "ta.PivotLow", "ta.PivotMax", "ta.PivotMin" }
Signalling == {"Macd", "Rsi", "StochRsi", "Stochastic", "PPO", "Kdj", "Cci", "AiCoinCCI", "WilliamsR", "MoneyFlowIndex",
               "APO", "AO", "ChaikinOscillator", "Boll", "Donchian", "Keltner", "Ichimoku", "ProjectionOscillator",
               "StochasticHeat", "SuperTrend", "PivotPointSuperTrend", "UTBot", "TraderXO", "EMAVegas", "Camarilla",
               "ReversalSignals"}
All == ConfigsOf("C05") \o ConfigsOf("C06") \o ConfigsOf("C07") \o ConfigsOf("C08") \o ConfigsOf("C09") \o ConfigsOf("C10")
       \o ConfigsOf("C12") \o ConfigsOf("C13") \o ConfigsOf("C15") \o ConfigsOf("C25") \o ConfigsOf("C26")
Configs ==
  CASE Group = "C11" -> SelectSeq(All, LAMBDA c : c.kind \in Signalling)
    [] Group = "C24" -> SelectSeq(All, LAMBDA c : c.kind \notin ListFunctions)
    [] OTHER -> ConfigsOf(Group)

ASSUME JsonSerialize(IOEnv.CONF_FILE, [bars |-> Bars, configs |-> Configs])

VARIABLES m,      \* the market: positions in Bars
          st,     \* one machine state per configuration
          out     \* what each machine published for the newest bar
vars == <<m, st, out>>

Column(w, f) == [j \in 1..Len(w) |-> NOf(Bars[w[j]][f])]
Mkt(w) == [o |-> Column(w, 1), h |-> Column(w, 2), l |-> Column(w, 3), c |-> Column(w, 4), v |-> Column(w, 5),
           b |-> [j \in 1..Len(w) |-> Bars[w[j]][4] > Bars[w[j]][1]],
           t |-> [j \in 1..Len(w) |-> ToString(1700000000 + 60 * (j - 1))],
           mp |-> "9", mv |-> "5", ex |-> TRUE]
Nothing == [f \in {"K", "D", "Po"} |-> "0"]      \* no published value to continue from
Init == m = <<>> /\ st = [q \in 1..Len(Configs) |-> <<>>] /\ out = [q \in 1..Len(Configs) |-> <<>>]
Next == /\ Len(m) < N
        /\ \E a \in (IF Simulate THEN {RandomElement(1..Len(Bars))} ELSE 1..Len(Bars)) : m' = Append(m, a)
        /\ LET B == Mkt(m')
               i == Len(m')
               r == [q \in 1..Len(Configs) |->
                       CHOOSE x \in Steps(Configs[q].kind, Configs[q].p, B, i, st[q], Nothing) : TRUE]
           IN  /\ st'  = [q \in 1..Len(Configs) |-> r[q].st]
               /\ out' = [q \in 1..Len(Configs) |-> r[q].out]
        /\ Len(m') = N => PrintT(<<"MARKET", m'>>)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the definitions guarantee on every market.                         *)
Slack == "1e-25"
Le(a, b) == a = "?" \/ b = "?" \/ NLe(a, NAdd(b, Slack))
Within(x, a, b) == Le(a, x) /\ Le(x, b)
Val(q, f) == out[q][f][1]
Of(ks) == { q \in 1..Len(Configs) : Configs[q].kind \in ks /\ m # <<>> }
B == Mkt(m)
I == Len(m)
Lowest == NMinSeq(B.l)
Highest == NMaxSeq(B.h)

(* Every definition yields a number for valid candles (or is a quotient of  *)
(* rounding errors): no division by zero is left undefined.                 *)
Defined == \A q \in Of({c.kind : c \in Range(Configs)}) : \A f \in DOMAIN out[q] :
             Val(q, f) = "?" \/ NFinite(Val(q, f))
Ranges ==
  /\ \A q \in Of({"Rsi"}) : Within(Val(q, "Value"), Z, "100")
  /\ \A q \in Of({"StochRsi", "Stochastic", "Kdj"}) : Within(Val(q, "K"), Z, "100") /\ Within(Val(q, "D"), Z, "100")
  /\ \A q \in Of({"Kdj"}) : Within(Val(q, "RSV"), Z, "100")
  /\ \A q \in Of({"MoneyFlowIndex"}) : Within(Val(q, "Value"), Z, "100")
  /\ \A q \in Of({"WilliamsR"}) : Within(Val(q, "Value"), "-100", Z)
  /\ \A q \in Of({"ADX"}) : Within(Val(q, "ADX"), Z, "100") /\ Le(Z, Val(q, "DIPlus")) /\ Le(Z, Val(q, "DIMins"))
  /\ \A q \in Of({"Vortex"}) : Le(Z, Val(q, "PlusVi")) /\ Le(Z, Val(q, "MinusVi"))
  /\ \A q \in Of({"CMF"}) : Within(Val(q, "Value"), "-1", "1")
  /\ \A q \in Of({"StochasticHeat"}) : Within(Val(q, "Fast"), Z, "28") /\ Within(Val(q, "Slow"), Z, "28")
(* Averages stay between the extremes of what they average. *)
Between ==
  /\ \A q \in Of({"Sma", "Ma", "Ema", "Rma", "ta.Sma", "ta.Ema", "ta.Rma"}) : Within(Val(q, "Value"), Lowest, Highest)
  /\ \A q \in Of({"ta.MA", "ta.Wma"}) :
       IF I < Configs[q].p.Period THEN Val(q, "Value") = Z ELSE Within(Val(q, "Value"), Lowest, Highest)
  /\ \A q \in Of({"Vwma"}) : Val(q, "Value") = Z \/ Within(Val(q, "Value"), Lowest, Highest)
Bands ==
  /\ \A q \in Of({"Donchian", "Keltner"}) : Le(Val(q, "Lower"), Val(q, "Middle")) /\ Le(Val(q, "Middle"), Val(q, "Upper"))
  /\ \A q \in Of({"Donchian"}) : Within(B.c[I], Val(q, "Lower"), Val(q, "Upper"))
  /\ \A q \in Of({"Atr"}) : Le(Z, Val(q, "Atr")) /\ Le(NSub(B.h[I], B.l[I]), Val(q, "TR"))
  /\ \A q \in Of({"Camarilla"}) : \A n \in 1..3 :
       LET u(x) == Val(q, <<"High1", "High2", "High3", "High4">>[x])
           d(x) == Val(q, <<"Low1", "Low2", "Low3", "Low4">>[x])
       IN  Le(u(n), u(n + 1)) /\ Le(d(n + 1), d(n)) /\ Within(B.c[I], d(1), u(1))
Volume ==
  \A q \in Of({"Obv", "AD"}) : Le(NAbs(Val(q, "Value")), NSumSeq(B.v))
(* A Heikin-Ashi candle is a candle, and spans the one it is made from. *)
Spanning ==
  \A q \in Of({"HeikinAshi"}) :
    /\ Within(Val(q, "Open"), Val(q, "Low"), Val(q, "High")) /\ Within(Val(q, "Close"), Val(q, "Low"), Val(q, "High"))
    /\ Le(Val(q, "Low"), B.l[I]) /\ Le(B.h[I], Val(q, "High"))
(* The breakout counters count every bar after the first once. *)
Counters ==
  \A q \in Of({"BreakoutProbability"}) : NEq(NAdd(Val(q, "Win"), Val(q, "Loss")), NOf(I - 1))
(* Every swing level is broken at most once, and lines run forward. *)
BrokenOnce ==
  \A q \in Of({"SMC"}) :
    LET L == { j \in 1..Len(st[q].lines) : st[q].lines[j][1] \notin {"EQH", "EQL"} }
        scale(f) == f \in {"HighBOSLong", "HighCHoCHLong", "LowBOSLong", "LowChoCHLong"}
        high(f) == f \in {"HighBOSShort", "HighCHoCHShort", "HighBOSLong", "HighCHoCHLong"}
    IN  /\ \A a, b \in L : (/\ a # b /\ st[q].lines[a][2] = st[q].lines[b][2]
                            /\ scale(st[q].lines[a][1]) = scale(st[q].lines[b][1])
                            /\ high(st[q].lines[a][1]) = high(st[q].lines[b][1])) => FALSE
        /\ \A a \in L : st[q].lines[a][2] < st[q].lines[a][3]
        /\ Len(st[q].bull) <= Listed /\ Len(st[q].bear) <= Listed
(* The counts of the reversal strategy never run together. *)
OneCount == \A q \in Of({"ReversalSignals"}) : st[q].dn = 0 \/ st[q].up = 0
Invariants == Defined /\ Ranges /\ Between /\ Bands /\ Volume /\ Counters /\ BrokenOnce /\ OneCount /\ Spanning

(* A trailing stop only moves in the direction of its trend. *)
Ratchet ==
  \A q \in 1..Len(Configs) :
    (Configs[q].kind \in {"SuperTrend", "PivotPointSuperTrend"} /\ Len(m) > 1) =>
      LET a == st[q]  b == st'[q]  c1 == Mkt(m).c[Len(m)]  c == Mkt(m').c[Len(m')] IN
      /\ (a.trend = 1 /\ b.trend = 1 /\ NLt(a.up, c1)) => Le(a.up, b.up)
      /\ (a.trend = -1 /\ b.trend = -1 /\ NLt(c1, a.dn)) => Le(b.dn, a.dn)
      /\ (Configs[q].kind = "SuperTrend" /\ b.ex) =>     \* an inexact tie may go either way
           /\ (a.trend = 1 /\ b.trend = -1) => NLt(c, a.up)
           /\ (a.trend = -1 /\ b.trend = 1) => NLt(a.dn, c)
RatchetProp == [][Ratchet]_vars
=============================================================================
