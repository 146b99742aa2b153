--------------------------------- MODULE Ranges ---------------------------------
(***************************************************************************)
(* Design model of date ranges: TLC explores every start, end, interval    *)
(* and limit of the bound, walks through the range, checks the partition   *)
(* and prints the arguments as scripts for the real code.                  *)
(***************************************************************************)
EXTENDS Partition, IOUtils
Top == atoi(IOEnv.TOP)
MaxI == atoi(IOEnv.MAXI)
MaxLimit == atoi(IOEnv.MAXLIMIT)
Sim == IOEnv.SIM = "1"
Pages == IOEnv.PAGES = "1"            \* only ranges of about a whole number of requests of a realistic size
VARIABLES I, s, e, limit, w, phase
vars == <<I, s, e, limit, w, phase>>
Small == /\ I \in -1..MaxI /\ limit \in -1..MaxLimit       \* a limit of -1 stands for the largest there is
         /\ s \in (0..Top) \cup {Unset} /\ e \in (0..Top) \cup {Unset}
Drawn == /\ I' = RandomElement({1, 1, 2, 3, 5} \cup 1..MaxI) /\ limit' = RandomElement(-1..MaxLimit)
         /\ s' = RandomElement(0..Top) /\ e' = RandomElement(0..Top)
Large == /\ I \in 1..MaxI /\ limit \in {L \in {9, 10, 11, 25, 64, 100, 300, 365, 500, 1000} : L <= MaxLimit}
         /\ s \in {0, 2} /\ \E m \in 1..3, d \in {-1, 0, 1} : m * limit * I <= Top /\ e = s + (m * limit + d) * I
Init == /\ CASE Sim -> I = 0 /\ limit = 0 /\ s = 0 /\ e = 0
             [] Pages -> Large
             [] OTHER -> Small
        /\ w = <<>> /\ phase = IF Sim THEN "unasked" ELSE "asked"
Ask == phase = "unasked" /\ Drawn /\ phase' = "asked" /\ UNCHANGED w
Limit == IF limit = -1 THEN 1000000 ELSE limit
Begin == /\ phase = "asked"
         /\ PrintT(<<"SCRIPT", <<I, s, e, limit>>>>)
         /\ IF Refused(s, e, I) THEN phase' = "refused" /\ UNCHANGED w
            ELSE phase' = "walking" /\ w' = Walk(s, e, I)
         /\ UNCHANGED <<I, s, e, limit>>
Go == /\ phase = "walking"
      /\ IF More(w) THEN w' = Advance(w, Limit) /\ UNCHANGED phase ELSE phase' = "done" /\ UNCHANGED w
      /\ UNCHANGED <<I, s, e, limit>>
Next == Ask \/ Begin \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Min(a, b) == IF a < b THEN a ELSE b
Partitioned == phase \in {"walking", "done"} =>
  LET R == w.reqs IN
  /\ R[1].s = w.from /\ R[Len(R)].e = w.at
  /\ \A j \in 1..Len(R) : R[j].e - R[j].s = R[j].n * I /\ (limit > 0 => R[j].n <= limit) /\ (Len(R) > 1 => R[j].n > 0)
  /\ \A j \in 1..Len(R) - 1 : R[j + 1].s = R[j].e /\ R[j].n = Limit
  /\ limit <= 0 => Len(R) = 1
Covered == phase = "done" =>
  /\ w.at = w.end                                     \* both ends are whole intervals
  /\ w = Complete(s, e, I, Limit)
  /\ 2 * (w.from - s) <= I /\ 2 * (s - w.from) <= I     \* rounding moves an end by half an interval at most
  /\ 2 * (w.at - e) <= I /\ 2 * (e - w.at) <= I
  /\ \A t \in w.from..w.at - 1 : IntervalAt(w, t) \in 1..Whole(w.from, w.at, I)
Ends == <>(phase \in {"done", "refused"})
=============================================================================
