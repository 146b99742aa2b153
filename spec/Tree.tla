--------------------------------- MODULE Tree ---------------------------------
(***************************************************************************)
(* The search tree as a linked structure, and that it refines the multiset *)
(* (C16).  A tree is <<>> or <<left, value, right>>.  Inserting goes left  *)
(* on smaller or equal, right otherwise; removing a node with two children *)
(* moves the smallest value of its right side up.                          *)
(*                                                                         *)
(* Every reachable tree is visited once (the script that led there is not  *)
(* part of the state), and for each operation on it the script is printed: *)
(* together they cover every edge of the state graph.                      *)
(***************************************************************************)
EXTENDS Multiset, IOUtils

Values == 1..atoi(IOEnv.VALUES)
MaxNodes == atoi(IOEnv.NODES)
MaxLen == atoi(IOEnv.LEN)
Sim == IOEnv.SIM = "1"

VARIABLES tree, bag, script, ok
vars == <<tree, bag, script, ok>>
Leaf == <<>>
RECURSIVE Put(_, _), MinOf(_), MaxOf(_), Del(_, _), Size(_), Content(_)
Put(t, v) == IF t = Leaf THEN <<Leaf, v, Leaf>>
             ELSE IF v <= t[2] THEN <<Put(t[1], v), t[2], t[3]>> ELSE <<t[1], t[2], Put(t[3], v)>>
MinOf(t) == IF t[1] = Leaf THEN t[2] ELSE MinOf(t[1])
MaxOf(t) == IF t[3] = Leaf THEN t[2] ELSE MaxOf(t[3])
RECURSIVE DropMin(_)
DropMin(t) == IF t[1] = Leaf THEN t[3] ELSE <<DropMin(t[1]), t[2], t[3]>>
Del(t, v) == IF t = Leaf THEN t
             ELSE IF v < t[2] THEN <<Del(t[1], v), t[2], t[3]>>
             ELSE IF v > t[2] THEN <<t[1], t[2], Del(t[3], v)>>
             ELSE IF t[1] # Leaf /\ t[3] # Leaf THEN <<t[1], MinOf(t[3]), DropMin(t[3])>>
             ELSE IF t[1] # Leaf THEN t[1] ELSE t[3]
RECURSIVE Has(_, _)
Has(t, v) == t # Leaf /\ (t[2] = v \/ (v < t[2] /\ Has(t[1], v)) \/ (v > t[2] /\ Has(t[3], v)))
Size(t) == IF t = Leaf THEN 0 ELSE Size(t[1]) + 1 + Size(t[3])
Content(t) == IF t = Leaf THEN <<>> ELSE Content(t[1]) \o <<t[2]>> \o Content(t[3])
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]

Init == tree = Leaf /\ bag = EmptyBag /\ script = <<>> /\ ok = TRUE
Show == IF ~Sim \/ Len(script') = MaxLen THEN PrintT(<<"SCRIPT", script'>>) ELSE TRUE
Ins(v) == /\ Size(tree) < MaxNodes
          /\ tree' = Put(tree, v) /\ bag' = Insert(bag, v)[1] /\ ok' = TRUE
          /\ script' = Append(script, v)
Rem(v) == /\ tree' = Del(tree, v) /\ bag' = Remove(bag, v)[1] /\ ok' = Has(tree, v)
          /\ script' = Append(script, -v)
Next == /\ Len(script) < MaxLen
        /\ IF Sim THEN LET v == RandomElement(Values) IN IF RandomElement(1..5) <= 3 /\ Size(tree) < MaxNodes THEN Ins(v) ELSE Rem(v)
           ELSE \E v \in Values : Ins(v) \/ Rem(v)
        /\ Show
Spec == Init /\ [][Next]_vars
View == tree
SearchOrder == Sorted(Content(tree))
SameContent == LET c == Content(tree) IN \A v \in Values : Held(bag, v) = Len(SelectSeq(c, LAMBDA x : x = v))
Extremes == tree # Leaf => MinOf(tree) = Smallest(bag) /\ MaxOf(tree) = Largest(bag)
FindsWhatItHolds == \A v \in Values : Has(tree, v) = (Held(bag, v) > 0)
=============================================================================
