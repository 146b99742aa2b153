----------------------------- MODULE TraceTogether -----------------------------
(* Overlapping calls of real indicators.  A trace holds what each call      *)
(* answers alone (alone[s][o], for every operation o > 0 of slot s) and per *)
(* run what began and ended when, what each call answered at its end, and   *)
(* what the candles were before and after.                                  *)
EXTENDS Answers, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, run, at, op
vars == <<tid, run, at, op>>
Idle == [s \in 1..9 |-> -1]
Reject(T, what) == PrintT(<<"REJECT", T.id, run, what>>) /\ FALSE
Init == tid \in 1..Len(Traces) /\ run = 1 /\ at = 0 /\ op = Idle
Fits(T, a, s, o) == a.ok /\ (o > 0 => SameAnswer(a, T.ans[T.alone[s][o]], T.mp))
Event == LET T == Traces[tid]  R == T.runs[run]  e == R.events[at + 1] IN
         /\ run <= Len(T.runs) /\ at < Len(R.events)
         /\ IF e > 0 THEN op[e \div 10] = -1 /\ op' = [op EXCEPT ![e \div 10] = e % 10]
            ELSE /\ op[-e] # -1
                 /\ IF Fits(T, T.ans[R.got[at + 1]], -e, op[-e]) THEN TRUE
                    ELSE Reject(T, <<R.events, "event", at + 1, IF op[-e] = 0 THEN "built" ELSE <<"alone", T.ans[T.alone[-e][op[-e]]]>>,
                                     "got", T.ans[R.got[at + 1]]>>)
                 /\ op' = [op EXCEPT ![-e] = -1]
         /\ at' = at + 1 /\ UNCHANGED <<tid, run>>
EndRun == LET T == Traces[tid]  R == T.runs[run] IN
          /\ run <= Len(T.runs) /\ at = Len(R.events) /\ op = Idle
          /\ IF R.candles = T.candles THEN TRUE ELSE Reject(T, <<R.events, "the candles changed">>)
          /\ run' = run + 1 /\ at' = 0 /\ UNCHANGED <<tid, op>>
Finish == LET T == Traces[tid] IN
          /\ run = Len(T.runs) + 1 /\ at = 0
          /\ PrintT(<<"DONE", T.id>>)
          /\ at' = 1 /\ UNCHANGED <<tid, run, op>>
Next == Event \/ EndRun \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
