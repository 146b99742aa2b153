------------------------------- MODULE Channels -------------------------------
(***************************************************************************)
(* Networks of goroutines connected by channels (C18, C19).                *)
(*                                                                         *)
(* A network is a list of processes and the capacities of its channels.    *)
(* Each process is a small program whose next communication is given by    *)
(* Wants: send a value, receive, close, take a silent step, or nothing.    *)
(* A channel of capacity 0 is a rendezvous; a receive from a closed and    *)
(* empty channel fails.                                                    *)
(*                                                                         *)
(* TLC explores every interleaving.  In every state the values each sink   *)
(* has received are a prefix of what the definition of the pipeline        *)
(* (Meaning, a function on lists) prescribes; where no process can move,   *)
(* all of them are done and every sink has received exactly that           *)
(* (delivery, order, closing, no deadlock, no stranded producer).          *)
(* The order in which the environment (sources and sinks) moved is         *)
(* printed as a schedule; the harness replays it with the real operators.  *)
(***************************************************************************)
EXTENDS Networks, FiniteSets, TLC, Json, IOUtils

MaxIn == atoi(IOEnv.MAXIN)         \* length of the longest input
Family == IOEnv.FAMILY
Sim == IOEnv.SIM = "1"
Schedules == IOEnv.SCHED = "1"     \* keep the schedule in the state

Generated == Nets(Family, MaxIn)
ASSUME ndJsonSerialize(IOEnv.CONF_FILE, SetToSeq(Generated))   \* for the harness

VARIABLES net, pc, chan, sched
vars == <<net, pc, chan, sched>>

Procs == 1..Len(net.procs)
Start(p) ==
  CASE p.k = "src"    -> [at |-> "run", left |-> p.vals]
    [] p.k = "sink"   -> [at |-> "run", got |-> <<>>]
    [] p.k = "op2"    -> [at |-> "a", x |-> 0]
    [] p.k = "dup"    -> [at |-> "recv", x |-> 0, j |-> 1]
    [] p.k = "shift"  -> [at |-> IF p.n > 0 THEN "fill" ELSE "recv", x |-> 0, j |-> 0]
    [] p.k = "skip"   -> [at |-> IF p.n > 0 THEN "skip" ELSE "recv", x |-> 0, j |-> 0]
    [] p.k = "map"    -> [at |-> "recv", x |-> 0]
    [] p.k = "sum"    -> [at |-> "a", x |-> 0, acc |-> 0]
Init ==
  /\ net \in Generated
  /\ pc = [i \in 1..Len(net.procs) |-> Start(net.procs[i])]
  /\ chan = [c \in 1..Len(net.caps) |-> [q |-> <<>>, closed |-> FALSE]]
  /\ sched = <<>>

(* The next communication of process i. *)
Send(c, v) == [do |-> "send", c |-> c, v |-> v]
Recv(c) == [do |-> "recv", c |-> c]
Close(c) == [do |-> "close", c |-> c]
Nothing == [do |-> "nothing", c |-> 0]
Wants(i) ==
  LET p == net.procs[i]  s == pc[i] IN
  CASE s.at = "done" -> Nothing
    [] p.k = "src" -> IF s.left = <<>> THEN Close(p.out) ELSE Send(p.out, Head(s.left))
    [] p.k = "sink" -> Recv(p.in)
    [] p.k = "map" -> (CASE s.at = "recv" -> Recv(p.in) [] s.at = "send" -> Send(p.out, Apply(p.f, s.x)) [] s.at = "end" -> Close(p.out))
    [] p.k = "skip" -> (CASE s.at \in {"skip", "recv"} -> Recv(p.in) [] s.at = "send" -> Send(p.out, s.x) [] s.at = "end" -> Close(p.out))
    [] p.k = "shift" -> (CASE s.at = "fill" -> Send(p.out, p.fill) [] s.at = "recv" -> Recv(p.in) [] s.at = "send" -> Send(p.out, s.x) [] s.at = "end" -> Close(p.out))
    [] p.k = "dup" -> (CASE s.at = "recv" -> Recv(p.in) [] s.at = "send" -> Send(p.outs[s.j], s.x) [] s.at = "end" -> Close(p.outs[s.j]))
    [] p.k \in {"op2", "sum"} ->
         (CASE s.at \in {"a", "drainA"} -> Recv(p.a) [] s.at \in {"b", "drainB"} -> Recv(p.b)
            [] s.at = "send" -> Send(p.out, s.x) [] s.at = "end" -> Close(p.out))
(* The process after its send or close went through. *)
Sent(i) ==
  LET p == net.procs[i]  s == pc[i] IN
  CASE p.k = "src" -> IF s.left = <<>> THEN [s EXCEPT !.at = "done"] ELSE [s EXCEPT !.left = Tail(@)]
    [] p.k = "shift" /\ s.at = "fill" -> [s EXCEPT !.j = @ + 1, !.at = IF s.j + 1 = p.n THEN "recv" ELSE "fill"]
    [] p.k = "dup" -> IF s.j < Len(p.outs) THEN [s EXCEPT !.j = @ + 1]
                      ELSE [s EXCEPT !.j = 1, !.at = IF s.at = "end" THEN "done" ELSE "recv"]
    [] p.k \in {"op2", "sum"} -> [s EXCEPT !.at = IF s.at = "end" THEN "done" ELSE "a"]
    [] OTHER -> [s EXCEPT !.at = IF s.at = "end" THEN "done" ELSE "recv"]
(* The process after it received v; ok is FALSE when the channel was closed. *)
Received(i, v, ok) ==
  LET p == net.procs[i]  s == pc[i] IN
  CASE p.k = "sink" -> IF ok THEN [s EXCEPT !.got = Append(@, v)] ELSE [s EXCEPT !.at = "done"]
    [] p.k = "skip" /\ s.at = "skip" -> [s EXCEPT !.j = @ + 1, !.at = IF s.j + 1 = p.n THEN "recv" ELSE "skip"]
    [] p.k \in {"op2", "sum"} ->
         (CASE s.at = "a" -> IF ok THEN [s EXCEPT !.x = v, !.at = "b"] ELSE [s EXCEPT !.at = "drainB"]
            [] s.at = "b" -> IF ~ok THEN [s EXCEPT !.at = "drainA"]
                             ELSE IF p.k = "op2" THEN [s EXCEPT !.x = Combine(@, v), !.at = "send"]
                             ELSE [s EXCEPT !.acc = @ + s.x - v, !.x = s.acc + s.x - v, !.at = "send"]
            [] OTHER -> IF ok THEN s ELSE [s EXCEPT !.at = "end"])
    [] p.k = "dup" /\ p.outs = <<>> -> IF ok THEN s ELSE [s EXCEPT !.at = "done"]
    [] OTHER -> IF ok THEN [s EXCEPT !.x = v, !.at = "send"] ELSE [s EXCEPT !.at = "end"]

Env(i) == net.procs[i].k \in {"src", "sink"}
Moved(S) == sched' = IF Schedules THEN sched \o SelectSeq([i \in Procs |-> i], LAMBDA i : i \in S /\ Env(i)) ELSE sched

(* One step: a rendezvous, a buffered send or receive, a close, or a failed receive. *)
Rendezvous(i, j) ==
  LET w == Wants(i)  r == Wants(j) IN
  /\ i # j /\ w.do = "send" /\ r.do = "recv" /\ w.c = r.c /\ net.caps[w.c] = 0
  /\ pc' = [pc EXCEPT ![i] = Sent(i), ![j] = Received(j, w.v, TRUE)]
  /\ UNCHANGED <<net, chan>> /\ Moved({i, j})
BufferedSend(i) ==
  LET w == Wants(i) IN
  /\ w.do = "send" /\ net.caps[w.c] > Len(chan[w.c].q)
  /\ chan' = [chan EXCEPT ![w.c].q = Append(@, w.v)]
  /\ pc' = [pc EXCEPT ![i] = Sent(i)]
  /\ UNCHANGED net /\ Moved({i})
BufferedRecv(i) ==
  LET w == Wants(i) IN
  /\ w.do = "recv" /\ chan[w.c].q # <<>>
  /\ chan' = [chan EXCEPT ![w.c].q = Tail(@)]
  /\ pc' = [pc EXCEPT ![i] = Received(i, Head(chan[w.c].q), TRUE)]
  /\ UNCHANGED net /\ Moved({i})
Closing(i) ==
  LET w == Wants(i) IN
  /\ w.do = "close"
  /\ chan' = [chan EXCEPT ![w.c].closed = TRUE]
  /\ pc' = [pc EXCEPT ![i] = Sent(i)]
  /\ UNCHANGED net /\ Moved({i})
ClosedRecv(i) ==
  LET w == Wants(i) IN
  /\ w.do = "recv" /\ chan[w.c].closed /\ chan[w.c].q = <<>>
  /\ pc' = [pc EXCEPT ![i] = Received(i, 0, FALSE)]
  /\ UNCHANGED <<net, chan>> /\ Moved({i})
AllDone == \A i \in Procs : pc[i].at = "done"
Step == \/ \E i \in Procs : BufferedSend(i) \/ BufferedRecv(i) \/ Closing(i) \/ ClosedRecv(i)
        \/ \E i, j \in Procs : Rendezvous(i, j)
Finish == /\ AllDone /\ net.name # "finished"
          /\ PrintT(<<"SCHEDULE", <<net.id>> \o sched>>)
          /\ net' = [net EXCEPT !.name = "finished"] /\ UNCHANGED <<pc, chan, sched>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sinks == { i \in Procs : net.procs[i].k = "sink" }
DeliversInOrder ==
  \A i \in Sinks : /\ Len(pc[i].got) <= Len(net.want[net.procs[i].no])
                   /\ pc[i].got = SubSeq(net.want[net.procs[i].no], 1, Len(pc[i].got))
(* Where nothing can move, everything is done and delivered (no deadlock). *)
EndsComplete ==
  ENABLED Step \/ (AllDone /\ \A i \in Sinks : pc[i].got = net.want[net.procs[i].no]
                           /\ \A c \in 1..Len(net.caps) : chan[c].closed /\ chan[c].q = <<>>)
Terminates == <>AllDone
=============================================================================
