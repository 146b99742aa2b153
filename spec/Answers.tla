------------------------------- MODULE Answers -------------------------------
(* When two answers of a call are the same: the same texts and shape, and   *)
(* the same numbers up to rounding.                                         *)
EXTENDS Num, Integers, Sequences
SameNumber(a, b, mag) == a = b \/ (NFinite(a) /\ NFinite(b) /\ NClose(a, b, NMax(mag, NMax(NAbs(a), NAbs(b)))))
SameAnswer(a, b, mag) ==
  \/ a = b
  \/ /\ a.txt = b.txt
     /\ Len(a.num) = Len(b.num)
     /\ \A j \in 1..Len(a.num) : SameNumber(a.num[j], b.num[j], mag)
=============================================================================
