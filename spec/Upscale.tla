-------------------------------- MODULE Upscale --------------------------------
(***************************************************************************)
(* Design model of upscaling: TLC explores every source over a few bars    *)
(* (MODE=bars) or with every spacing of times and every pair of intervals  *)
(* (MODE=times), checks that the machine computes the definition, that it  *)
(* conserves what it should and that converting in two steps is the same   *)
(* as in one, and prints every source as a script for the real code.       *)
(***************************************************************************)
EXTENDS Scaling, IOUtils
Bars == <<
  <<4, 6, 3, 5, 2, 9, 1>>,
  <<5, 9, 2, 4, 3, 14, 2>>,
  <<8, 8, 7, 7, 0, 0, 0>>,
  <<3, 5, 1, 3, 5, 11, 4>>,
  <<2, 2, 2, 2, 1, 2, 3>> >>
NBars == atoi(IOEnv.BARS)
Times == atoi(IOEnv.TIMES)
MaxLen == atoi(IOEnv.LEN)
Spaced == IOEnv.MODE = "bars"
Sim == IOEnv.SIM = "1"
Pairs == IF Sim THEN { <<o, o * f>> : o \in 1..5, f \in {2, 3, 4, 5, 6, 7, 12, 24} }
         ELSE IF Spaced THEN { <<1, 2>>, <<1, 3>>, <<2, 4>>, <<3, 12>> }
         ELSE { <<o, w>> : o \in {-1, 0, 1, 2, 3}, w \in {-2, 0, 1, 2, 3, 4, 6} }
C(t, b) == [t |-> t, o |-> NOf(Bars[b][1]), h |-> NOf(Bars[b][2]), l |-> NOf(Bars[b][3]), c |-> NOf(Bars[b][4]),
            v |-> NOf(Bars[b][5]), a |-> NOf(Bars[b][6]), n |-> NOf(Bars[b][7])]
VARIABLES old, new, ts, bs, m, second
vars == <<old, new, ts, bs, m, second>>
Src == [x \in 1..Len(ts) |-> C(ts[x], bs[x])]
Init == /\ \E p \in Pairs : old = p[1] /\ new = p[2]
        /\ ts = <<>> /\ bs = <<>> /\ m = Start(old, new) /\ second = Start(new, 2 * new)
        /\ IF Sim THEN TRUE ELSE PrintT(<<"SCRIPT", <<old, new>>>>)
Show(T, B) == LET n == Len(T) IN [x \in 1..2 + 2 * n |-> IF x = 1 THEN old ELSE IF x = 2 THEN new
                                    ELSE IF x % 2 = 1 THEN T[(x - 1) \div 2] ELSE B[(x - 2) \div 2]]
Add(t, b) ==
  /\ ts' = Append(ts, t) /\ bs' = Append(bs, b)
  /\ m' = Feed(m, C(t, b))
  /\ second' = IF Len(m'.out) > Len(m.out) THEN Feed(second, m'.out[Len(m'.out)]) ELSE second
  /\ UNCHANGED <<old, new>>
  /\ (~Sim \/ Len(ts') = MaxLen) => PrintT(<<"SCRIPT", Show(ts', bs')>>)
Next == /\ Len(ts) < MaxLen
        /\ IF Spaced
           THEN \E b \in (IF Sim THEN {RandomElement(1..NBars)} ELSE 1..NBars) : Add(Len(ts) * old, b)
           ELSE \E t \in 0..Times : Add(t, 1 + (Len(ts) % Len(Bars)))
Spec == Init /\ [][Next]_vars

Same == /\ Refused(m) = ~Defined(old, new, Src)
        /\ ~Refused(m) => m.out = Definition(old, new, Src)
Conserved == ~Refused(m) =>
  LET k == new \div old  used == Len(m.out) * k
      V == [x \in 1..used |-> Src[x].v]  W == [x \in 1..Len(m.out) |-> m.out[x].v] IN
  /\ NEq(NSumSeq(V), NSumSeq(W))
  /\ m.out[1].o = Src[1].o /\ m.out[Len(m.out)].c = Src[used].c
  /\ \A x \in 1..Len(m.out) : NLe(m.out[x].l, m.out[x].o) /\ NLe(m.out[x].c, m.out[x].h) /\ m.out[x].t = ts[1] + (x - 1) * new
TwoSteps == (~Refused(m) /\ ~Refused(second)) => second.out = Definition(old, 2 * new, Src)
=============================================================================
