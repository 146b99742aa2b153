-------------------------------- MODULE Derived --------------------------------
(* C23: price series and candles derived from candles.                        *)
EXTENDS Windows

DerivedKinds == {"HL2", "HLC3", "OHLC4", "GetOHLC", "HeikinAshi"}
Mid(B, i) == NDiv(NAdd(B.o[i], B.c[i]), "2")
Exactly(v) == <<v, "0">>
DerivedStep(k, p, B, i, st, L) ==
  LET o == B.o[i]  h == B.h[i]  l == B.l[i]  c == B.c[i]
      all == NDiv(NAdd(NAdd(o, h), NAdd(l, c)), "4")
  IN
  CASE k = "HL2"   -> Ret(<<>>, [Value |-> <<NDiv(NAdd(h, l), "2"), h>>])
    [] k = "HLC3"  -> Ret(<<>>, [Value |-> <<NDiv(NAdd(NAdd(h, l), c), "3"), h>>])
    [] k = "OHLC4" -> Ret(<<>>, [Value |-> <<all, h>>])
    [] k = "GetOHLC" -> Ret(<<>>, [Open |-> Exactly(o), High |-> Exactly(h), Low |-> Exactly(l), Close |-> Exactly(c),
                                   Volume |-> Exactly(B.v[i]), Bull |-> Exactly(IF B.b[i] THEN "1" ELSE "0"), Time |-> Exactly(NSub(B.t[i], B.t[1]))])
    [] k = "HeikinAshi" ->       \* the state is the middle of the body of the candle before
         LET open == IF i = 1 THEN Mid(B, i) ELSE st IN
         Ret(Mid(B, i), [Open |-> <<open, h>>, Close |-> <<all, h>>, High |-> <<NMax(h, open), h>>, Low |-> <<NMin(l, open), h>>,
                         Volume |-> Exactly(B.v[i]), Time |-> Exactly(NSub(B.t[i], B.t[1])), Kept |-> Exactly("1")])
=============================================================================
