------------------------------- MODULE TraceTree -------------------------------
(* Executions of the real tree against the multiset.  A call is logged as     *)
(* [op, v, ok, min, max]; 0 stands for "nothing" (values are 1, 2, ...).      *)
(* Each script is followed by removals that empty the tree, so that its whole *)
(* content is observed.                                                       *)
EXTENDS Multiset, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, bag
vars == <<tid, i, bag>>
After(c, b) == CASE c.op = "insert" -> Insert(b, c.v) [] c.op = "remove" -> Remove(b, c.v) [] OTHER -> <<b, TRUE>>
Fits(c, r) == /\ c.err = ""
              /\ c.ok = r[2]
              /\ c.min = (IF DOMAIN r[1] = {} THEN 0 ELSE Smallest(r[1]))
              /\ c.max = (IF DOMAIN r[1] = {} THEN 0 ELSE Largest(r[1]))
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bag = EmptyBag
Next == LET T == Traces[tid]  c == T.calls[i + 1]  r == After(c, bag) IN
        /\ i < Len(T.calls)
        /\ IF Fits(c, r) THEN TRUE ELSE PrintT(<<"REJECT", T.id, i + 1, <<c, bag>>>>) /\ FALSE
        /\ bag' = r[1] /\ i' = i + 1 /\ UNCHANGED tid
        /\ i' = Len(T.calls) => PrintT(<<"DONE", T.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
