------------------------------- MODULE TraceQueue -------------------------------
(* Executions of the real queue: [op, v, got, empty]; got is -1 for a refusal. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, held
vars == <<tid, i, held>>
Fits(c) ==
  /\ c.err = ""
  /\ c.op = "enqueue" => TRUE
  /\ c.op = "dequeue" => c.got = (IF held = <<>> THEN -1 ELSE Head(held))
  /\ c.op = "empty" => c.empty = (held = <<>>)
Init == tid \in 1..Len(Traces) /\ i = 0 /\ held = <<>>
Next == LET T == Traces[tid]  c == T.calls[i + 1] IN
        /\ i < Len(T.calls)
        /\ IF Fits(c) THEN TRUE ELSE PrintT(<<"REJECT", T.id, i + 1, <<c, held>>>>) /\ FALSE
        /\ held' = CASE c.op = "enqueue" -> Append(held, c.v)
                     [] c.op = "dequeue" -> IF held = <<>> THEN held ELSE Tail(held)
                     [] OTHER -> held
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ i' = Len(T.calls) => PrintT(<<"DONE", T.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
