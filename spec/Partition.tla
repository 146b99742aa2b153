------------------------------- MODULE Partition -------------------------------
(***************************************************************************)
(* Splitting a range of time into requests of whole intervals (C22).       *)
(* Times are whole numbers counted from a moment at which an interval      *)
(* begins.  A machine walks from the rounded start to the rounded end, one *)
(* interval at a time, and opens a new request when the current one is     *)
(* full.  A limit of 0 means none.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Unset == -1000                        \* a time that was never set
Rounded(t, I) == LET r == t % I IN IF 2 * r < I THEN t - r ELSE t - r + I

(* What is wrong with the arguments: any of these errors may be reported. *)
Errors(s, e, future) ==
  (IF s = Unset \/ e = Unset THEN {"unset"} ELSE {}) \cup
  (IF s # Unset /\ e # Unset /\ s > e THEN {"after"} ELSE {}) \cup
  (IF s # Unset /\ e # Unset /\ s = e THEN {"equal"} ELSE {}) \cup
  (IF s # Unset /\ future THEN {"future"} ELSE {})
Refused(s, e, I) == s = Unset \/ e = Unset \/ s >= e \/ I <= 0

Walk(s, e, I) == [I |-> I, from |-> Rounded(s, I), at |-> Rounded(s, I), end |-> Rounded(e, I),
                  reqs |-> << [s |-> Rounded(s, I), e |-> Rounded(s, I), n |-> 0] >>]
More(w) == w.at + w.I <= w.end
Advance(w, limit) ==
  LET last == w.reqs[Len(w.reqs)]
      full == limit > 0 /\ last.n = limit
  IN  [w EXCEPT !.at = @ + w.I,
                !.reqs = IF full THEN Append(@, [s |-> w.at, e |-> w.at + w.I, n |-> 1])
                         ELSE [@ EXCEPT ![Len(@)] = [s |-> last.s, e |-> w.at + w.I, n |-> last.n + 1]]]
Complete(s, e, I, limit) ==
  LET F[n \in 0..(Rounded(e, I) - Rounded(s, I)) \div I] == IF n = 0 THEN Walk(s, e, I) ELSE Advance(F[n - 1], limit)
  IN  F[(Rounded(e, I) - Rounded(s, I)) \div I]
(* The number of whole intervals between two times. *)
Whole(s, e, I) == IF I <= 0 THEN 0 ELSE (e - s) \div I
(* The number of the interval a time falls in, 0 for none. *)
IntervalAt(w, t) == IF t < w.from \/ t >= w.at THEN 0 ELSE (t - w.from) \div w.I + 1
=============================================================================
