------------------------------ MODULE Publisher ------------------------------
(***************************************************************************)
(* Any indicator, seen as a publisher: one record per candle, stamped with *)
(* the candle's time, and where it signals one signal per candle; a new    *)
(* candle only appends (C01, C02).  What a record says is left open here:  *)
(* that is what the machines of Indicators say.                            *)
(*                                                                         *)
(* The design run also enumerates the shapes of markets on which the real  *)
(* indicators are asked for their records: one or two stretches, each      *)
(* flat, one price, rising, falling, zigzag or without volume, of every    *)
(* length.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, IOUtils

Shapes == {"flat", "oneprice", "rise", "fall", "zigzag", "novolume"}
ShapeNumber == [flat |-> 1, oneprice |-> 2, rise |-> 3, fall |-> 4, zigzag |-> 5, novolume |-> 6]
SignalNames == {"BUY", "SELL", "HOLD"}

Appends(before, after) == Len(after) = Len(before) + 1 /\ IsPrefix(before, after)

MaxLen == atoi(IOEnv.LEN)
VARIABLES market, shown, signals, first
vars == <<market, shown, signals, first>>
Init == market = <<>> /\ shown = <<>> /\ signals = <<>> /\ first \in {0, 1, 2, 5, 9, 17}
(* The market turns from its first stretch into its second after `first' candles. *)
Candle(sh) == /\ Len(market) < MaxLen
              /\ IF Len(market) = 0 THEN TRUE ELSE (sh = market[Len(market)]) <=> (Len(market) # first)
              /\ market' = Append(market, sh)
Publish(rec, sig) == shown' = Append(shown, rec) /\ signals' = Append(signals, sig)
Tell == PrintT(<<"SHAPE", <<first, IF market' = <<>> THEN 1 ELSE ShapeNumber[market'[1]],
                             ShapeNumber[market'[Len(market')]], Len(market')>>>>)
Next == /\ \E sh \in Shapes : Candle(sh)
        /\ Publish([t |-> Len(market)], "HOLD")
        /\ ((first = 0 \/ first < Len(market')) => Tell)
        /\ UNCHANGED first
Spec == Init /\ [][Next]_vars
OneRecordPerCandle == Len(shown) = Len(market) /\ Len(signals) = Len(market)
InCandleOrder == \A i \in 1..Len(shown) : shown[i].t = i - 1
OnlyAppends == [][Appends(shown, shown') /\ Appends(signals, signals')]_vars
=============================================================================
