-------------------------------- MODULE Candles --------------------------------
(***************************************************************************)
(* Design model of candle list maintenance: a list is filled, then         *)
(* operations are applied to it in any order.  TLC explores all of them,   *)
(* checks what each guarantees, and prints the scripts.                    *)
(*   1 remove duplicates   2 sort ascending   3 sort descending   4 clear  *)
(*   100 + 10 a + b  restrict to [a, b)     200 + 10 a + b  a restricted   *)
(*   copy, then go on with the original     300 + ...  and go on with it   *)
(***************************************************************************)
EXTENDS Listing, IOUtils
Times == atoi(IOEnv.TIMES)
MaxLen == atoi(IOEnv.LEN)
MaxOps == atoi(IOEnv.OPS)
Sim == IOEnv.SIM = "1"
Edges == 0..(IF Times > 8 THEN 9 ELSE Times + 1)     \* one digit each
Ops == {1, 2, 3, 4} \cup { k + 10 * a + b : k \in {100, 200, 300}, a \in Edges, b \in Edges }

VARIABLES start, list, script
vars == <<start, list, script>>
Init == start = <<>> /\ list = <<>> /\ script = <<>>
Fill == /\ script = <<>> /\ Len(start) < MaxLen
        /\ \E t \in (IF Sim THEN {RandomElement(1..Times)} ELSE 1..Times) :
             start' = Append(start, <<t, Len(start) + 1>>)
        /\ list' = start' /\ UNCHANGED script
After(l, op) ==
  CASE op = 1 -> {Deduped(l)}
    [] op = 2 -> IF Sim THEN {SortSeq(l, LAMBDA x, y : Time(x) < Time(y))} ELSE Sortings(l, FALSE)
    [] op = 3 -> IF Sim THEN {SortSeq(l, LAMBDA x, y : Time(x) > Time(y))} ELSE Sortings(l, TRUE)
    [] op = 4 -> {<<>>}
    [] op \in 100..199 \/ op >= 300 -> {Ranged(l, (op % 100) \div 10, op % 10)}
    [] OTHER -> {l}
Show(w) == <<Len(start)>> \o [x \in 1..Len(start) |-> start[x][1]] \o w
Do == /\ Len(script) < MaxOps
      /\ Sim => Len(start) = MaxLen
      /\ \E op \in (IF Sim THEN {IF RandomElement(1..9) = 1 THEN 4 ELSE IF RandomElement(1..2) = 1 THEN RandomElement(1..3) ELSE RandomElement(Ops)} ELSE Ops) :
           /\ list' \in After(list, op)
           /\ script' = Append(script, op)
      /\ UNCHANGED start
      /\ (Len(script') = MaxOps) => PrintT(<<"SCRIPT", Show(script')>>)
Next == Fill \/ Do
Spec == Init /\ [][Next]_vars

Ids(l) == { l[x][2] : x \in 1..Len(l) }
(* Nothing is invented or doubled. *)
Kept == /\ Ids(list) \subseteq Ids(start) /\ Cardinality(Ids(list)) = Len(list)
        /\ \A x \in 1..Len(list) : start[list[x][2]] = list[x]
Newest == IF script = <<>> THEN 0 ELSE script[Len(script)]
Effect ==
  /\ Newest = 1 => \A x, y \in 1..Len(list) : x # y => Time(list[x]) # Time(list[y])
  /\ Newest \in {2, 3} => Ordered(list, Newest = 3)
  /\ Newest \in 100..199 => \A x \in 1..Len(list) : LET t == Time(list[x]) IN
        (Newest % 100) \div 10 <= t /\ (t < Newest % 10 \/ t = (Newest % 100) \div 10)
Steps ==
  LET op == script'[Len(script')] IN
  Len(script') > Len(script) =>
    /\ op = 1 => /\ \A x \in 1..Len(list) : \E y \in 1..Len(list') : Time(list'[y]) = Time(list[x])
                 /\ \A y \in 1..Len(list'), x \in 1..Len(list) : Time(list[x]) = Time(list'[y]) => \E z \in 1..x : list[z] = list'[y]
                 /\ Deduped(list') = list'
    /\ op \in {2, 3} => IsSorting(list, op = 3, list')
    /\ op \in 100..199 =>
         \A x \in 1..Len(list) : Inside(Time(list[x]), (op % 100) \div 10, op % 10) => list[x][2] \in Ids(list')
    /\ op \in {1} \cup (100..199) =>      \* the order of what stays
         \A x, y \in 1..Len(list') : x < y =>
           \E p, q \in 1..Len(list) : p < q /\ list[p] = list'[x] /\ list[q] = list'[y]
StepsProp == [][Steps]_vars
=============================================================================
