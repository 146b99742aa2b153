------------------------------- MODULE Multiset -------------------------------
(* What the search tree is for its user (C16): a multiset of ordered values. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
EmptyBag == [v \in {} |-> 0]
Held(b, v) == IF v \in DOMAIN b THEN b[v] ELSE 0
Add(b, v) == (v :> Held(b, v) + 1) @@ b
Take(b, v) == IF Held(b, v) > 1 THEN [b EXCEPT ![v] = @ - 1] ELSE [w \in DOMAIN b \ {v} |-> b[w]]
Smallest(b) == CHOOSE v \in DOMAIN b : \A w \in DOMAIN b : v <= w
Largest(b) == CHOOSE v \in DOMAIN b : \A w \in DOMAIN b : w <= v
(* An operation on the bag: <<bag after, removal succeeded>>. *)
Insert(b, v) == <<Add(b, v), TRUE>>
Remove(b, v) == IF Held(b, v) > 0 THEN <<Take(b, v), TRUE>> ELSE <<b, FALSE>>
=============================================================================
