--------------------------------- MODULE Queue ---------------------------------
(***************************************************************************)
(* First in, first out (C17).  Dequeueing an empty queue is refused and    *)
(* changes nothing.  The invariant: what came out, followed by what is     *)
(* held, is what went in.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils
Values == 0..atoi(IOEnv.VALUES)      \* 0 stands for nil
MaxLen == atoi(IOEnv.LEN)
Sim == IOEnv.SIM = "1"
VARIABLES held, entered, left, script
vars == <<held, entered, left, script>>
Init == held = <<>> /\ entered = <<>> /\ left = <<>> /\ script = <<>>
Enqueue(v) == held' = Append(held, v) /\ entered' = Append(entered, v) /\ script' = Append(script, v) /\ UNCHANGED left
Dequeue == /\ IF held = <<>> THEN UNCHANGED <<held, left>>
              ELSE held' = Tail(held) /\ left' = Append(left, Head(held))
           /\ script' = Append(script, -1) /\ UNCHANGED entered
AskEmpty == script' = Append(script, -2) /\ UNCHANGED <<held, entered, left>>
(* Long scripts have tides: the queue fills by hundreds, then drains. *)
Tide == IF MaxLen < 1000 THEN 3 ELSE CASE (Len(script) \div 375) % 4 = 1 -> 6 [] (Len(script) \div 375) % 4 = 0 -> 5 [] OTHER -> 1
Next == /\ Len(script) < MaxLen
        /\ IF Sim THEN LET k == RandomElement(1..7) IN
                       IF k <= Tide THEN Enqueue(RandomElement(Values)) ELSE IF k <= 6 THEN Dequeue ELSE AskEmpty
           ELSE (\E v \in Values : Enqueue(v)) \/ Dequeue \/ AskEmpty
        /\ IF Len(script') = MaxLen THEN PrintT(<<"SCRIPT", script'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
NothingLost == left \o held = entered
=============================================================================
