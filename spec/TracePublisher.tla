---------------------------- MODULE TracePublisher ----------------------------
(***************************************************************************)
(* Records of real indicators against Publisher.  A trace holds the        *)
(* publications of one indicator for several markets: runs[k] is what it   *)
(* published for a market of runs[k].n candles - records as numbers into   *)
(* the table recs, the candle whose time each record carries, signals, the *)
(* lengths of its columns.  In a growing trace the markets are the         *)
(* prefixes of one market and each publication must extend the one before; *)
(* otherwise the runs are unrelated.                                       *)
(***************************************************************************)
EXTENDS Answers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
SignalNames == {"BUY", "SELL", "HOLD"}
VARIABLES tid, k, shown, signals
vars == <<tid, k, shown, signals>>

SameRecord(T, a, b) == a = b \/ SameAnswer(T.recs[a], T.recs[b], T.mp)

(* What must hold of one publication: a record and a signal per candle, in order. *)
(* <<>> when it does, otherwise what does not.                                    *)
Complete(T, R) ==
  CASE R.err # "" -> <<R.err>>
    [] Len(R.recs) # R.n -> <<"number of records", Len(R.recs)>>
    [] R.at # [i \in 1..R.n |-> i] -> <<"times of the records", R.at>>
    [] \E i \in 1..Len(R.lens) : R.lens[i] # R.n -> <<"length of a getter's column", R.lens>>
    [] T.sided /\ Len(R.side) # R.n -> <<"number of signals", Len(R.side)>>
    [] \E i \in 1..Len(R.side) : R.side[i] \notin SignalNames -> <<"unknown signal", R.side>>
    [] OTHER -> <<>>
(* ... and of one publication after another. *)
Extends(T, R) ==
  CASE Len(R.recs) < Len(shown) -> <<"records were withdrawn">>
    [] \E i \in 1..Len(shown) : ~SameRecord(T, shown[i], R.recs[i]) ->
         LET i == CHOOSE i \in 1..Len(shown) : ~SameRecord(T, shown[i], R.recs[i])
         IN <<"record changed by a later candle", i, T.recs[shown[i]], T.recs[R.recs[i]]>>
    [] \E i \in 1..Len(signals) : R.side[i] # signals[i] -> <<"signal changed by a later candle", signals, R.side>>
    [] OTHER -> <<>>

Init == tid \in 1..Len(Traces) /\ k = 0 /\ shown = <<>> /\ signals = <<>>
Publish == LET T == Traces[tid]  R == T.runs[k + 1]  P == Complete(T, R) \o Extends(T, R) IN
           /\ k < Len(T.runs)
           /\ IF P = <<>> THEN TRUE ELSE PrintT(<<"REJECT", T.id, k + 1, <<R.n, R.p, P>>>>) /\ FALSE
           /\ shown' = (IF T.growing THEN R.recs ELSE <<>>)
           /\ signals' = (IF T.growing THEN R.side ELSE <<>>)
           /\ k' = k + 1 /\ UNCHANGED tid
           /\ k' = Len(T.runs) => PrintT(<<"DONE", T.id>>)
Next == Publish
Spec == Init /\ [][Next]_vars
=============================================================================
