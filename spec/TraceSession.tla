----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Executions of Session scripts by real indicators.  A trace holds the    *)
(* candles of each market (candles[m], numbered as in Session), the        *)
(* answers of fresh indicators over equal candles (fresh[m][s][o]) and,    *)
(* per script, what each call answered (as numbers into the table ans) and *)
(* what the candles were after it (numbers into a table of candle lists,   *)
(* compared exactly).                                                      *)
(* Strategy lists are runs of RunStrategies over the indicators.           *)
(***************************************************************************)
EXTENDS Answers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, run, at, market
vars == <<tid, run, at, market>>

Runs(T) == Len(T.runs)
(* The market after operation o on slot s. *)
After(m, s, o) == IF s = 0 THEN (2 * m) + (o - 7) ELSE m
(* The answer the specification prescribes for operation o of slot s. *)
Prescribed(T, m, s, o) == T.fresh[m][s][o]
Asked(s, o) == s > 0 /\ o \in 1..8
CallOK(T, r, j, m) ==
  LET R == T.runs[r]  s == R.ops[j] \div 10  o == R.ops[j] % 10 IN
  /\ R.candles[j] = T.candles[m]
  /\ T.ans[R.got[j]].ok                      \* the call returned
  /\ Asked(s, o) => SameAnswer(T.ans[R.got[j]], T.ans[Prescribed(T, m, s, o)], T.mp)
ListOK(T, l) ==
  LET L == T.lists[l] IN
  /\ Len(L.got) = Len(L.slots) /\ Len(L.names) = Len(L.slots)
  /\ L.candles = T.candles[1]
  /\ \A j \in 1..Len(L.slots) :
       /\ L.names[j] = T.names[L.slots[j]]
       /\ T.ans[L.got[j]].ok
       /\ SameAnswer(T.ans[L.got[j]], T.ans[T.sides[L.slots[j]]], T.mp)

Reject(T, what) == PrintT(<<"REJECT", T.id, run, what>>) /\ FALSE
Init == tid \in 1..Len(Traces) /\ run = 1 /\ at = 0 /\ market = 1
Call == LET T == Traces[tid]  R == T.runs[run] IN
        /\ run <= Runs(T) /\ at < Len(R.ops)
        /\ LET s == R.ops[at + 1] \div 10  o == R.ops[at + 1] % 10  m == After(market, s, o) IN
           /\ IF CallOK(T, run, at + 1, m) THEN TRUE
              ELSE Reject(T, <<R.ops, "call", at + 1,
                               IF R.candles[at + 1] # T.candles[m] THEN "the candles changed"
                               ELSE IF ~Asked(s, o) THEN <<"failed", T.ans[R.got[at + 1]]>>
                               ELSE <<"expected", T.ans[Prescribed(T, m, s, o)], "got", T.ans[R.got[at + 1]]>>>>)
           /\ market' = m
        /\ at' = at + 1 /\ UNCHANGED <<tid, run>>
EndRun == LET T == Traces[tid] IN
          /\ run <= Runs(T) /\ at = Len(T.runs[run].ops)
          /\ run' = run + 1 /\ at' = 0 /\ market' = 1 /\ UNCHANGED tid
Lists == LET T == Traces[tid] IN
         /\ run > Runs(T) /\ at < Len(T.lists)
         /\ IF ListOK(T, at + 1) THEN TRUE ELSE Reject(T, <<"strategies", T.lists[at + 1], T.names>>)
         /\ at' = at + 1 /\ UNCHANGED <<tid, run, market>>
Finish == LET T == Traces[tid] IN
          /\ run = Runs(T) + 1 /\ at = Len(T.lists)
          /\ PrintT(<<"DONE", T.id>>)
          /\ run' = run + 1 /\ UNCHANGED <<tid, at, market>>
Next == Call \/ EndRun \/ Lists \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
