------------------------------ MODULE TraceUpscale ------------------------------
(* Conversions by the real code: the source, what came out of it and what    *)
(* the source looked like afterwards.                                        *)
EXTENDS Scaling, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, m
vars == <<tid, i, m>>
SameCandle(w, g) ==
  /\ g.t = w.t /\ NEq(g.o, w.o) /\ NEq(g.h, w.h) /\ NEq(g.l, w.l) /\ NEq(g.c, w.c) /\ NEq(g.n, w.n)
  /\ NClose(w.v, g.v, w.v) /\ NClose(w.a, g.a, w.a)
  /\ NClose(NDiv(NSub(w.c, w.o), w.o), g.change, "1")
  /\ g.bull = NLt(w.o, w.c)
Agrees(T, s) ==
  /\ T.err = "" /\ T.kept
  /\ T.refused = Refused(s)
  /\ ~T.refused => /\ T.named
                   /\ Len(T.got) = Len(s.out)
                   /\ \A x \in 1..Len(s.out) : SameCandle(s.out[x], T.got[x])
Init == tid \in 1..Len(Traces) /\ i = 0 /\ m = Start(Traces[tid].old, Traces[tid].new)
Read == LET T == Traces[tid] IN
        /\ i < Len(T.src) /\ i' = i + 1 /\ m' = Feed(m, T.src[i + 1]) /\ UNCHANGED tid
Judge == LET T == Traces[tid] IN
         /\ i = Len(T.src) /\ i' = i + 1 /\ UNCHANGED <<tid, m>>
         /\ IF Agrees(T, m) THEN PrintT(<<"DONE", T.id>>)
            ELSE PrintT(<<"REJECT", T.id, i, <<T.err, "kept", T.kept, "refused", T.refused, "expected", Refused(m), m.out, "got", T.got>>>>)
Spec == Init /\ [][Read \/ Judge]_vars
=============================================================================
