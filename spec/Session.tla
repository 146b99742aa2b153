------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session: several indicators over one list of candles, each built,     *)
(* calculated and observed in any order and any number of times.           *)
(*                                                                         *)
(* An indicator calculates lazily: the first observation calculates, an    *)
(* explicit calculation replaces what was there, clearing drops it.  What  *)
(* an observation o shows is a function of the candles alone - the         *)
(* invariants say that no order of calls can tell a used indicator from a  *)
(* fresh one (C03), that indicators do not influence one another and that  *)
(* the candles stay as they are (C04).                                     *)
(*                                                                         *)
(* The market may move on under a session: the last candle is amended in   *)
(* place, as a live feed does, or a candle is appended.  Only these steps  *)
(* change the candles; an indicator built afterwards shows the market as   *)
(* it then is, whatever was built, calculated or read before.              *)
(*                                                                         *)
(* Every complete script is printed; the harness runs it with the real     *)
(* indicators and TraceSession checks what they answered.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Slots == 1..atoi(IOEnv.SLOTS)
Ops == 1..atoi(IOEnv.OPS)             \* ways of observing; 0 builds (again), 1 calculates
Len0 == atoi(IOEnv.LEN)
Rebuild == IOEnv.REBUILD = "1"        \* a slot may be built again
Once == IOEnv.ONCE = "1"              \* every operation at most once per slot
Clearing == IOEnv.CLEARING            \* may a slot be cleared: no, keeps (the candles; it may be asked again)
                                      \* or drops (them; it has to be built again)

Moves == atoi(IOEnv.MOVES)            \* how often the market may move on

Candles == <<"c1", "c2", "c3">>       \* opaque
Nothing == <<>>

VARIABLES script, candles, built, cache, answers,
          market, markets             \* which market this is; which one it was after each step
vars == <<script, candles, built, cache, answers, market, markets>>

(* The market after a history of moves is numbered: 1, then 2m or 2m+1. *)
RECURSIVE CandlesOf(_)
CandlesOf(m) ==
  IF m = 1 THEN Candles
  ELSE LET before == CandlesOf(m \div 2) IN
       IF m % 2 = 0 THEN [before EXCEPT ![Len(before)] = <<@, "amended">>]
       ELSE Append(before, <<"new", m>>)

Calculated(s, cs) == [i \in DOMAIN cs |-> <<s, cs[i]>>]
Observed(o, v) == <<o, v>>

Init == /\ script = <<>> /\ candles = Candles
        /\ built = {} /\ cache = [s \in Slots |-> Nothing] /\ answers = <<>>
        /\ market = 1 /\ markets = <<>>

Do(s, o) == <<s, o>>
Stays == UNCHANGED <<candles, market>> /\ markets' = Append(markets, market)
Fresh(s, o) == \A j \in DOMAIN script : script[j] # Do(s, o)
New(s) ==
  /\ Rebuild \/ s \notin built
  /\ built' = built \cup {s} /\ cache' = [cache EXCEPT ![s] = Nothing]
  /\ script' = Append(script, Do(s, 0)) /\ answers' = Append(answers, <<>>)
  /\ Stays
Calculate(s) ==
  /\ s \in built
  /\ cache' = [cache EXCEPT ![s] = Calculated(s, candles)]
  /\ script' = Append(script, Do(s, 1)) /\ answers' = Append(answers, <<>>)
  /\ Stays /\ UNCHANGED built
Observe(s, o) ==
  /\ s \in built
  /\ cache' = [cache EXCEPT ![s] = IF @ = Nothing THEN Calculated(s, candles) ELSE @]
  /\ script' = Append(script, Do(s, o)) /\ answers' = Append(answers, Observed(o, cache'[s]))
  /\ Stays /\ UNCHANGED built
Clear(s) ==
  /\ Clearing # "no" /\ s \in built
  /\ cache' = [cache EXCEPT ![s] = Nothing]
  /\ built' = IF Clearing = "drops" THEN built \ {s} ELSE built
  /\ script' = Append(script, Do(s, 9)) /\ answers' = Append(answers, <<>>)
  /\ Stays
(* What was built over the old market has to be built again. *)
Move(how) ==
  /\ Cardinality({j \in DOMAIN script : script[j][1] = 0}) < Moves
  /\ market' = (2 * market) + how /\ candles' = CandlesOf(market') /\ markets' = Append(markets, market')
  /\ built' = {} /\ cache' = [s \in Slots |-> Nothing]
  /\ script' = Append(script, Do(0, 7 + how)) /\ answers' = Append(answers, <<>>)
Step == \/ \E how \in 0..1 : Move(how)
        \/ \E s \in Slots :
          \/ New(s)
          \/ Clear(s)
          \/ \E o \in Ops : (Once => Fresh(s, o)) /\ IF o = 1 THEN Calculate(s) ELSE Observe(s, o)
Show == IF Len(script') = Len0 THEN PrintT(<<"SCRIPT", [j \in 1..Len0 |-> 10 * script'[j][1] + script'[j][2]]>>) ELSE TRUE
Next == Len(script) < Len0 /\ Step /\ Show
Spec == Init /\ [][Next]_vars

CandlesUntouched == candles = CandlesOf(market) /\ (Moves = 0 => market = 1)
NothingDuplicated == \A s \in Slots : cache[s] # Nothing => Len(cache[s]) = Len(candles)
AnswersAreFresh ==
  \A j \in DOMAIN script :
    (script[j][1] # 0 /\ script[j][2] \in Ops \ {1}) =>
      answers[j] = Observed(script[j][2], Calculated(script[j][1], CandlesOf(markets[j])))
=============================================================================
