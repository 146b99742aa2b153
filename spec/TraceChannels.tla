----------------------------- MODULE TraceChannels -----------------------------
(***************************************************************************)
(* Executions of the real operators.  A trace holds the calls that built   *)
(* the network and the events at its ends, in the order they were seen:    *)
(*   [e |-> "sent"/"closed", n |-> source]                                 *)
(*   [e |-> "got", n |-> sink, v |-> value]  [e |-> "end", n |-> sink]     *)
(* and what was left when everything had had its time: ends that were      *)
(* still waiting, goroutines of the library that were still there.         *)
(* WHAT selects the property: "values" (C18) or "ends" (C19).              *)
(***************************************************************************)
EXTENDS Networks, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Values == IOEnv.WHAT = "values"
VARIABLES tid, i, want, got, sent, closed, ended
vars == <<tid, i, want, got, sent, closed, ended>>

Net(T) == Built(Blank, T.calls)
Sources(T) == { j \in 1..Len(Net(T).procs) : Net(T).procs[j].k = "src" }
Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ want = Net(Traces[tid]).want
        /\ got = [s \in 1..Len(want) |-> 0]
        /\ sent = 0 /\ closed = 0 /\ ended = {}
Allowed(T, e) ==
  CASE e.e \in {"sent", "closed"} -> TRUE
    [] e.e = "got" -> Values => /\ e.n \notin ended
                                /\ got[e.n] < Len(want[e.n])
                                /\ e.v = want[e.n][got[e.n] + 1]
    [] e.e = "end" -> Values => e.n \notin ended /\ got[e.n] = Len(want[e.n])
    [] OTHER -> FALSE
Event == LET T == Traces[tid]  e == T.events[i + 1] IN
         /\ i < Len(T.events)
         /\ IF Allowed(T, e) THEN TRUE ELSE PrintT(<<"REJECT", T.id, i + 1, <<e, "expected", want, T.calls>>>>) /\ FALSE
         /\ got' = (IF e.e = "got" THEN [got EXCEPT ![e.n] = @ + 1] ELSE got)
         /\ sent' = (IF e.e = "sent" THEN sent + 1 ELSE sent)
         /\ closed' = (IF e.e = "closed" THEN closed + 1 ELSE closed)
         /\ ended' = (IF e.e = "end" THEN ended \cup {e.n} ELSE ended)
         /\ i' = i + 1 /\ UNCHANGED <<tid, want>>
Complete(T) ==
  IF Values THEN T.err = "" /\ ended = 1..Len(want)
  ELSE /\ T.err = ""
       /\ T.leaked = 0 /\ T.waiting = 0
       /\ closed = T.sources /\ sent = T.total      \* every producer got rid of everything
Finish == LET T == Traces[tid] IN
          /\ i = Len(T.events)
          /\ IF Complete(T) THEN PrintT(<<"DONE", T.id>>)
             ELSE PrintT(<<"REJECT", T.id, i, <<T.err, "leaked", T.leaked, "waiting", T.waiting, "sent", sent, T.total, "ended", ended, T.calls>>>>)
          /\ i' = i + 1 /\ UNCHANGED <<tid, want, got, sent, closed, ended>>
Next == Event \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
