------------------------------ MODULE TraceCandles ------------------------------
(* Histories of real candle lists: the list after every operation.            *)
EXTENDS Listing, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, list
vars == <<tid, i, list>>
Fits(c, l) ==
  /\ c.err = "" /\ c.whole /\ c.named
  /\ CASE c.op = "dedupe" -> c.list = Deduped(l)
       [] c.op = "sort"   -> IsSorting(l, c.down, c.list)
       [] c.op = "range"  -> c.list = Ranged(l, c.a, c.b)
       [] c.op = "copy"   -> c.list = l /\ c.copy = Ranged(l, c.a, c.b)
       [] c.op = "clear"  -> c.list = <<>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ list = Traces[tid].start
Next == LET T == Traces[tid]  c == T.calls[i + 1] IN
        /\ i < Len(T.calls)
        /\ IF Fits(c, list) THEN TRUE ELSE PrintT(<<"REJECT", T.id, i + 1, <<list, c>>>>) /\ FALSE
        /\ list' = IF c.op = "copy" /\ c.follow THEN c.copy ELSE c.list
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ i' = Len(T.calls) => PrintT(<<"DONE", T.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
