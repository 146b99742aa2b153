--------------------------- MODULE TraceIndicators ---------------------------
(***************************************************************************)
(* Trace validation of the indicator machines.  Each line of the trace     *)
(* file is one observed execution: the candles, the parameters and         *)
(* everything published.  A trace is accepted iff the machine has a        *)
(* behaviour that publishes the logged values bar by bar.                  *)
(*                                                                         *)
(* Verdicts are printed: DONE for a trace that was consumed to its end,    *)
(* REJECT with the bar where no step of the machine matches.  A trace is   *)
(* accepted iff DONE is printed for it (a machine may branch near a tie,   *)
(* so a REJECT alone is not a verdict).                                    *)
(***************************************************************************)
EXTENDS Indicators, Sides, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Finite == IOEnv.FINITE = "1"       \* C24: every published number is finite
Values == IOEnv.MODE \in {"values", "both"}
Signals == IOEnv.MODE \in {"sides", "both"}
VARIABLES tid, i, st
vars == <<tid, i, st>>

Columns(T) == DOMAIN T.out \ {"_"}
Shown(T, n) == [f \in Columns(T) |-> T.out[f][n]]
(* What must hold of the execution as a whole. *)
Problem(T) ==
  IF T.err # "" THEN T.err
  ELSE IF \E f \in Columns(T) : Len(T.out[f]) # T.n THEN "number of records"
  ELSE IF Signals /\ T.sided /\ Len(T.side) # T.n THEN "number of signals"
  ELSE IF Values /\ \E f \in DOMAIN T.get \ {"_"} : T.get[f] # T.out[f] THEN "getter differs from records"
  ELSE IF Values /\ T.kind \in ElementwiseKinds \cup DerivedKinds /\ ~T.pure THEN "argument modified"
  ELSE IF "list" \in DOMAIN T.aux /\ Len(T.aux.list) # T.n THEN "number of lists"
  ELSE ""

(* Does the published value v agree with expectation e? *)
Agrees(e, v) ==
  /\ Finite => NFinite(v)
  /\ IF Len(e) = 2 THEN NClose(e[1], v, e[2])
     ELSE IF ~NFinite(v) THEN FALSE
     ELSE LET d == NSub(v, e[4]) IN
          /\ NClose(e[1], NMul(d, d), e[2])
          /\ \/ NClose(d, "0", NSqrt(e[2]))
             \/ NLe("0", NMul(d, NOf(e[5])))

SameLevels(T, want, got) ==
  /\ Len(got) = Len(want)
  /\ \A j \in 1..Len(want) : /\ NClose(want[j].price, got[j].price, T.mp)
                             /\ NClose(want[j].per, got[j].per, "100")
                             /\ got[j].up = want[j].up
SameBlocks(T, want, got) ==
  /\ Len(got) = Len(want)
  /\ \A j \in 1..Len(want) :
       LET a == want[j].at  g == got[j] IN
       /\ g.top = want[j].top /\ g.t = T.t[a]
       /\ NEq(g.o, T.o[a]) /\ NEq(g.h, T.h[a]) /\ NEq(g.l, T.l[a]) /\ NEq(g.c, T.c[a])
SameExtreme(w, g) == g[1] = w[1] /\ NEq(g[2], w[2])
SameStructure(T, n, s) ==
  /\ T.aux.seen[n] =>     \* what the market up to this bar shows on its newest bar
       /\ SameBlocks(T, s.bull, T.aux.bull[n])
       /\ SameBlocks(T, s.bear, T.aux.bear[n])
       /\ \A f \in {"sh", "wh", "sl", "wl"} : SameExtreme(s.sw[f], T.aux.sw[n][f])
  /\ n = T.n => \A f \in LineFields, j \in 1..T.n : NEq(T.out[f][j], LineAt(s.lines, f, j))

Matches(T, n, r) ==
  /\ \A f \in DOMAIN r.out : f \in Columns(T) => Agrees(r.out[f], T.out[f][n])
  /\ \A f \in Columns(T) : f \in DOMAIN r.out
  /\ "list" \in DOMAIN r => SameLevels(T, r.list, T.aux.list[n])
  /\ "blocks" \in DOMAIN r => SameStructure(T, n, r.st)

Machine(T) == Values \/ T.kind = "ReversalSignals"
Here(T, n, s) == Steps(T.kind, T.p, T, n, s, Shown(T, n))
Good(T, n, s) ==
  IF ~Machine(T) THEN {[st |-> <<>>]}
  ELSE { r \in Here(T, n, s) : /\ Matches(T, n, r)
                               /\ (Signals /\ "side" \in DOMAIN r) => r.side = T.side[n] }
SignalOK(T, n) ==
  (Signals /\ T.sided /\ T.kind # "ReversalSignals") => T.side[n] \in SideSet(T.kind, T.p, T, n)
Why(T, n, s) ==   \* what to print: the expected values of the columns that differ
  IF ~SignalOK(T, n) THEN <<"signal", T.side[n], SideSet(T.kind, T.p, T, n)>>
  ELSE LET H == Here(T, n, s) IN
       { [f \in { f \in DOMAIN r.out : f \in Columns(T) /\ ~Agrees(r.out[f], T.out[f][n]) }
            |-> <<r.out[f], T.out[f][n]>>] : r \in H }

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = <<>>
Step == LET T == Traces[tid]
        IN  /\ i < T.n
            /\ i = 0 => IF Problem(T) = "" THEN TRUE ELSE PrintT(<<"REJECT", T.id, 0, Problem(T)>>) /\ FALSE
            /\ LET G == Good(T, i + 1, st) IN
               /\ IF G = {} \/ ~SignalOK(T, i + 1) THEN PrintT(<<"REJECT", T.id, i + 1, Why(T, i + 1, st)>>) /\ FALSE ELSE TRUE
               /\ \E r \in G : st' = r.st
            /\ i' = i + 1
            /\ tid' = tid
            /\ i' = T.n => PrintT(<<"DONE", T.id>>)
Empty == LET T == Traces[tid]
         IN  /\ T.n = 0 /\ i = 0
             /\ IF Problem(T) = "" THEN PrintT(<<"DONE", T.id>>) ELSE PrintT(<<"REJECT", T.id, 0, Problem(T)>>)
             /\ i' = 1 /\ UNCHANGED <<tid, st>>
Next == Step \/ Empty
Spec == Init /\ [][Next]_vars
=============================================================================
