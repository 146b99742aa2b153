------------------------------- MODULE Together -------------------------------
(***************************************************************************)
(* Indicators used at the same time (C29).  Each slot is a process that    *)
(* builds an indicator, calculates and observes it; a call begins, reads   *)
(* the candles one by one and ends, and the calls of different slots       *)
(* overlap in every way.  The candles are shared and only read; what a     *)
(* call writes belongs to its slot.  So no two calls in flight conflict    *)
(* and every call answers what it answers alone, whatever it overlaps.     *)
(*                                                                         *)
(* What begins and ends when is printed once every slot has made its       *)
(* calls: 10 * slot + operation for a beginning, -slot for an end.  The    *)
(* harness keeps to it with the real indicators, in a goroutine per call;  *)
(* the reads between are interleaved by the Go scheduler, and the race     *)
(* detector tells of two of them that conflict.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Slots == 1..atoi(IOEnv.SLOTS)
Ops == 0..atoi(IOEnv.OPS)             \* 0 builds, 1 calculates, others observe
Calls == atoi(IOEnv.CALLS)            \* of each slot
Sim == IOEnv.SIM = "1"
Market == <<"c1", "c2">>
Idle == -1
VARIABLES candles, op, made, read, cache, answer, script
vars == <<candles, op, made, read, cache, answer, script>>

Alone(s, o) == IF o < 2 THEN <<>> ELSE <<s, o, Market>>     \* what the call answers on its own
Reads(s, o) == (IF o = 0 THEN {} ELSE {<<"candles", 0>>}) \cup {<<"own", s>>}
Writes(s, o) == {<<"own", s>>}

Init == /\ candles = Market /\ script = <<>>
        /\ op = [s \in Slots |-> Idle] /\ made = [s \in Slots |-> 0]
        /\ read = [s \in Slots |-> <<>>] /\ cache = [s \in Slots |-> <<>>]
        /\ answer = [s \in Slots |-> <<>>]
Begin(s, o) ==
  /\ op[s] = Idle /\ made[s] < Calls /\ (o = 0) = (made[s] = 0)
  /\ op' = [op EXCEPT ![s] = o] /\ read' = [read EXCEPT ![s] = <<>>]
  /\ script' = Append(script, (10 * s) + o)
  /\ UNCHANGED <<candles, made, cache, answer>>
Needs(s) == op[s] = 1 \/ (op[s] > 1 /\ cache[s] = <<>>)     \* it calculates
Read(s) ==
  /\ op[s] # Idle /\ Needs(s) /\ Len(read[s]) < Len(candles)
  /\ read' = [read EXCEPT ![s] = Append(@, candles[Len(@) + 1])]
  /\ UNCHANGED <<candles, op, made, cache, answer, script>>
End(s) ==
  /\ op[s] # Idle /\ (Needs(s) => Len(read[s]) = Len(candles))
  /\ cache' = [cache EXCEPT ![s] = IF op[s] = 0 THEN <<>> ELSE IF Needs(s) THEN read[s] ELSE @]
  /\ answer' = [answer EXCEPT ![s] = IF op[s] < 2 THEN <<>> ELSE <<s, op[s], cache'[s]>>]
  /\ op' = [op EXCEPT ![s] = Idle] /\ made' = [made EXCEPT ![s] = @ + 1]
  /\ script' = Append(script, -s)
  /\ UNCHANGED <<candles, read>>
  /\ IF \A t \in Slots : made'[t] = Calls THEN PrintT(<<"SCRIPT", script'>>) ELSE TRUE
Step(s) == (\E o \in Ops : Begin(s, o)) \/ Read(s) \/ End(s)
(* Simulations favour beginnings, so that many calls overlap. *)
Next == IF Sim
        THEN \E s \in {RandomElement(Slots)}, k \in {RandomElement(1..3)}, o \in {RandomElement(Ops \ {0})} :
             IF op[s] = Idle /\ made[s] < Calls THEN Begin(s, IF made[s] = 0 THEN 0 ELSE o)
             ELSE IF k = 1 /\ op[s] # Idle THEN Read(s) \/ End(s)
             ELSE (\E t \in Slots : made[t] < Calls) /\ UNCHANGED vars
        ELSE \E s \in Slots : Step(s)
Spec == Init /\ [][Next]_vars

CandlesUntouched == candles = Market
NoConflict == \A s, t \in Slots : (s # t /\ op[s] # Idle /\ op[t] # Idle) =>
                Writes(s, op[s]) \cap (Reads(t, op[t]) \cup Writes(t, op[t])) = {}
AnswersAreAlone ==
  \A s \in Slots : op[s] = Idle => answer[s] \in {<<>>} \cup { Alone(s, o) : o \in Ops }
=============================================================================
