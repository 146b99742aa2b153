------------------------------- MODULE TraceRanges -------------------------------
(* Answers of the real code for one start, end, interval and limit, and       *)
(* queries for data after some intervals were marked.                         *)
EXTENDS Partition, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Limit(T) == IF T.limit = -1 THEN 1000000 ELSE T.limit
Calls == <<"returns", "check", "count", "refused", "requests", "intervals", "data">>
Ok(T, what) ==
  LET w == Complete(T.s, T.e, T.i, Limit(T)) IN
  CASE what = "returns"   -> T.err = ""
    [] what = "check"     -> IF Errors(T.s, T.e, T.future) = {} THEN T.check = "" ELSE T.check \in Errors(T.s, T.e, T.future)
    [] what = "count"     -> (T.s # Unset /\ T.e # Unset /\ T.s <= T.e) => T.count = Whole(T.s, T.e, T.i) /\ T.fine = T.count
    [] what = "refused"   -> T.refused = Refused(T.s, T.e, T.i)
    [] T.refused          -> TRUE
    [] what = "requests"  -> /\ T.from = w.from /\ T.to = w.at /\ T.twins
                             /\ [j \in 1..Len(T.reqs) |-> [s |-> T.reqs[j].s, e |-> T.reqs[j].e, n |-> Len(T.reqs[j].ivs)]] = w.reqs
    [] what = "intervals" -> \A j \in 1..Len(T.reqs) : \A x \in 1..Len(T.reqs[j].ivs) :
                               T.reqs[j].ivs[x] = <<T.reqs[j].s + (x - 1) * T.i, T.reqs[j].s + x * T.i>>
    [] what = "data"      -> \A q \in 1..Len(T.asked) :
                               T.asked[q][2] = (IF \E x \in 1..Len(T.marks) : T.marks[x] = IntervalAt(w, T.asked[q][1]) THEN 1 ELSE 0)
Init == tid \in 1..Len(Traces) /\ i = 0
Next == LET T == Traces[tid] IN
        /\ i < Len(Calls)
        /\ IF Ok(T, Calls[i + 1]) THEN TRUE ELSE PrintT(<<"REJECT", T.id, i + 1, <<Calls[i + 1], T, IF Refused(T.s, T.e, T.i) THEN "refused" ELSE Complete(T.s, T.e, T.i, Limit(T))>>>>) /\ FALSE
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ i' = Len(Calls) => PrintT(<<"DONE", T.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
