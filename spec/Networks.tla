------------------------------- MODULE Networks -------------------------------
(***************************************************************************)
(* The channel operators as functions on lists - what a pipeline means -   *)
(* and as processes - how the library runs it.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* ---- meaning ---------------------------------------------------------- *)
Apply(f, x) == CASE f = "twice" -> 2 * x + 1
                 [] f = "id" -> x
                 [] f = "round" -> IF x >= 0 THEN (x * 25 + 1) \div 2 ELSE -((1 - x * 25) \div 2)   \* x/8 to two decimals, in hundredths
                 [] f = "third" -> x \div 3
                 [] f = "half" -> x \div 2
                 [] f = "20th" -> x \div 20
                 [] f = "one" -> x
Combine(a, b) == 10 * a + b
Shorter(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
MapL(f, s) == [i \in 1..Len(s) |-> Apply(f, s[i])]
ZipL(a, b) == [i \in 1..Shorter(a, b) |-> Combine(a[i], b[i])]
ShiftL(s, n, fill) == [i \in 1..n |-> fill] \o s
SkipL(s, n) == SubSeq(s, n + 1, Len(s))
(* The windowed mean over a channel: sums start at 0, whole-number division. *)
RECURSIVE SumTo(_, _, _)
SumTo(s, a, b) == IF a > b THEN 0 ELSE s[b] + SumTo(s, a, b - 1)
SmaL(s, n) == [i \in 1..Len(s) |-> SumTo(s, IF i > n THEN i - n + 1 ELSE 1, i) \div n]

(* ---- processes -------------------------------------------------------- *)
Src(c, vals) == [k |-> "src", out |-> c, vals |-> vals]
Sink(c, no) == [k |-> "sink", in |-> c, no |-> no]
PMap(f, a, c) == [k |-> "map", f |-> f, in |-> a, out |-> c]
PShift(n, fill, a, c) == [k |-> "shift", n |-> n, fill |-> fill, in |-> a, out |-> c]
PSkip(n, a, c) == [k |-> "skip", n |-> n, in |-> a, out |-> c]
PDup(a, outs) == [k |-> "dup", in |-> a, outs |-> outs]
POp2(a, b, c) == [k |-> "op2", a |-> a, b |-> b, out |-> c]
PSum(a, b, c) == [k |-> "sum", a |-> a, b |-> b, out |-> c]

(* A network under construction: what each channel carries (as a list),    *)
(* its capacity, the processes, and the library calls that build it.       *)
(* A channel is read by exactly one process.                               *)
Blank == [caps |-> <<>>, lists |-> <<>>, procs |-> <<>>, calls |-> <<>>, want |-> <<>>, name |-> "", id |-> 0]
Chan(n, cap, l) == [n EXCEPT !.caps = Append(@, cap), !.lists = Append(@, l)]
Proc(n, p) == [n EXCEPT !.procs = Append(@, p)]
Call(n, c) == [n EXCEPT !.calls = Append(@, c)]
Last1(n) == Len(n.caps)
(* An input channel of the given capacity, fed with vals.                  *)
Input(n, cap, vals) ==
  LET m == Chan(n, cap, vals) IN
  Call(Proc(m, Src(Last1(m), vals)), [op |-> "input", cap |-> cap, vals |-> vals])
Mapped(n, f, a) ==
  LET m == Chan(n, 0, MapL(f, n.lists[a])) IN
  Call(Proc(m, PMap(f, a, Last1(m))), [op |-> "map", f |-> f, a |-> a])
Piped(n, a, cap) ==
  LET m == Chan(n, cap, n.lists[a]) IN
  Call(Proc(m, PMap("id", a, Last1(m))), [op |-> "pipe", a |-> a, cap |-> cap])
Shifted(n, k, fill, a) ==
  LET m == Chan(n, n.caps[a] + k, ShiftL(n.lists[a], k, fill)) IN
  Call(Proc(m, PShift(k, fill, a, Last1(m))), [op |-> "shift", n |-> k, fill |-> fill, a |-> a])
Skipped(n, k, a) ==
  LET m == Chan(n, n.caps[a], SkipL(n.lists[a], k)) IN
  Call(Proc(m, PSkip(k, a, Last1(m))), [op |-> "skip", n |-> k, a |-> a])
RECURSIVE Chans(_, _, _, _)
Chans(n, k, cap, l) == IF k = 0 THEN n ELSE Chans(Chan(n, cap, l), k - 1, cap, l)
Duplicated(n, k, a) ==
  LET m == Chans(n, k, n.caps[a], n.lists[a])
      outs == [j \in 1..k |-> Len(n.caps) + j] IN
  Call(Proc(m, PDup(a, outs)), [op |-> "dup", n |-> k, a |-> a])
Operated(n, a, b) ==
  LET m == Chan(n, 0, ZipL(n.lists[a], n.lists[b])) IN
  Call(Proc(m, POp2(a, b, Last1(m))), [op |-> "operate", a |-> a, b |-> b])
(* ta.SmaT: a duplicate, one side shifted by the period, a running sum, a division. *)
Averaged(n, k, a) ==
  LET d == Chans(n, 2, n.caps[a], n.lists[a])
      o == Len(n.caps)
      d2 == Proc(d, PDup(a, <<o + 1, o + 2>>))
      s == Chan(d2, n.caps[a] + k, ShiftL(n.lists[a], k, 0))
      s2 == Proc(s, PShift(k, 0, o + 2, o + 3))
      u == Chan(s2, 0, <<>>)
      u2 == Proc(u, PSum(o + 1, o + 3, o + 4))
      w == Chan(u2, 0, SmaL(n.lists[a], k))
      f == CASE k = 1 -> "one" [] k = 2 -> "half" [] k = 3 -> "third" [] k = 20 -> "20th" IN
  Call(Proc(w, PMap(f, o + 4, o + 5)), [op |-> "smat", n |-> k, a |-> a])
Read(n, a) ==
  LET m == [n EXCEPT !.want = Append(@, n.lists[a])] IN
  Call(Proc(m, Sink(a, Len(m.want))), [op |-> "sink", a |-> a])
RECURSIVE ReadAll(_, _)
ReadAll(n, cs) == IF cs = <<>> THEN n ELSE ReadAll(Read(n, Head(cs)), Tail(cs))

(* The network that a sequence of calls builds. *)
RECURSIVE Built(_, _)
Built(n, calls) ==
  IF calls = <<>> THEN n
  ELSE LET c == Head(calls)
           m == CASE c.op = "input" -> Input(n, c.cap, c.vals)
                  [] c.op = "map" -> Mapped(n, c.f, c.a)
                  [] c.op = "pipe" -> Piped(n, c.a, c.cap)
                  [] c.op = "shift" -> Shifted(n, c.n, c.fill, c.a)
                  [] c.op = "skip" -> Skipped(n, c.n, c.a)
                  [] c.op = "dup" -> Duplicated(n, c.n, c.a)
                  [] c.op = "operate" -> Operated(n, c.a, c.b)
                  [] c.op = "smat" -> Averaged(n, c.n, c.a)
                  [] c.op = "sink" -> Read(n, c.a)
       IN Built(m, Tail(calls))

(* ---- the networks explored -------------------------------------------- *)
Ramp(k, from) == [i \in 1..k |-> from + i]
(* Values start at 0, which an operator must not take for "nothing". *)
Wave(k) == [i \in 1..k |-> (i * i) % 5]                    \* repeats itself, comes back to 0
Below(k) == [i \in 1..k |-> ((i * i) % 5) - 4]
Inputs(max) == { Ramp(k, -1) : k \in 0..max } \cup { Wave(k) : k \in 3..max }
Caps == {0, 2}
In(cap, vals) == Input(Blank, cap, vals)
Single(max) ==
  UNION { UNION { LET n == In(cap, v) IN
    { Read(n, 1),
      Read(Mapped(n, "twice", 1), 2), Read(Mapped(n, "round", 1), 2),
      Read(Piped(n, 1, 0), 2), Read(Piped(n, 1, 1), 2) }
    \cup { Read(Shifted(n, k, 7, 1), 2) : k \in 0..3 }
    \cup { Read(Skipped(n, k, 1), 2) : k \in 0..3 }
    : v \in Inputs(max) \cup { Below(max) } } : cap \in Caps }
Fan(max) ==
  UNION { UNION { LET n == In(cap, v) IN
    { ReadAll(Duplicated(n, k, 1), [j \in 1..k |-> 1 + j]) : k \in 0..3 }
    : v \in Inputs(max) } : cap \in Caps }
Pairs(max) ==
  { Read(Operated(Input(In(ca, Ramp(a, -1)), cb, Ramp(b, 4)), 1, 2), 3)
    : a \in 0..max, b \in 0..max, ca \in Caps, cb \in Caps }
(* Chains and joins of operators. *)
Chained(max) ==
  UNION { UNION { LET n == In(cap, v) IN
    { Read(Mapped(Shifted(n, 2, 0, 1), "twice", 2), 3),
      Read(Skipped(Shifted(n, 2, 5, 1), 3, 2), 3),
      Read(Shifted(Skipped(n, 1, 1), 1, 9, 2), 3),
      Read(Piped(Skipped(Mapped(n, "twice", 1), 1, 2), 3, 0), 4),
      ReadAll(Duplicated(Mapped(n, "twice", 1), 2, 2), <<3, 4>>),
      ReadAll(Mapped(Duplicated(n, 2, 1), "twice", 2), <<4, 3>>),
      ReadAll(Skipped(Duplicated(n, 2, 1), 1, 2), <<4, 3>>),
      ReadAll(Shifted(Duplicated(n, 2, 1), 1, 8, 3), <<2, 4>>),
      Read(Operated(Duplicated(n, 2, 1), 2, 3), 4),
      Read(Operated(Shifted(Duplicated(n, 2, 1), 1, 0, 3), 2, 4), 5),
      Read(Operated(Mapped(Duplicated(n, 2, 1), "twice", 3), 2, 4), 5) }
    \cup { Read(Averaged(n, k, 1), 6) : k \in 1..3 }
    : v \in Inputs(max) } : cap \in Caps }
  \cup { Read(Operated(Skipped(Input(In(0, Ramp(a, -1)), 0, Ramp(b, 4)), 1, 2), 1, 3), 4) : a \in 0..max, b \in 0..max }
  \cup { Read(Operated(Shifted(Input(In(0, Ramp(a, -1)), 0, Ramp(b, 4)), 2, 0, 1), 3, 2), 4) : a \in 0..max, b \in 0..max }
  \cup { Read(Operated(Operated(Input(Input(In(0, Ramp(a, -1)), 0, Ramp(b, 2)), 0, Ramp(2, 5)), 1, 2), 4, 3), 5) : a \in 0..max, b \in 0..max }
(* Long streams and large numbers of places. *)
Long(max) ==
  UNION { LET n == In(cap, Wave(max)) IN
    { Read(n, 1), Read(Mapped(n, "twice", 1), 2), Read(Mapped(n, "round", 1), 2),
      Read(Piped(n, 1, 0), 2), Read(Piped(n, 1, 100), 2),
      Read(Shifted(n, 3, 7, 1), 2), Read(Shifted(n, 200, 7, 1), 2),
      Read(Skipped(n, 3, 1), 2), Read(Skipped(n, 200, 1), 2), Read(Skipped(n, max + 100, 1), 2),
      ReadAll(Duplicated(n, 9, 1), [j \in 1..9 |-> 1 + j]),
      Read(Averaged(n, 3, 1), 6), Read(Averaged(n, 20, 1), 6),
      Read(Operated(Shifted(Duplicated(n, 2, 1), 70, 1, 3), 2, 4), 5) }
    : cap \in {0, 2, 150} }
  \cup { Read(Operated(Input(In(0, Wave(p[1])), 0, Below(p[2])), 1, 2), 3) : p \in {<<max, max>>, <<max, max - 130>>, <<max - 130, max>>} }
Numbered(S) == LET q == SetToSeq(S) IN { [q[i] EXCEPT !.id = i] : i \in 1..Len(q) }
Nets(family, max) ==
  Numbered(CASE family = "single" -> Single(max)
             [] family = "fan" -> Fan(max)
             [] family = "pairs" -> Pairs(max)
             [] family = "chains" -> Chained(max)
             [] family = "long" -> Long(max)
             [] family = "all" -> Single(max) \cup Fan(max) \cup Pairs(max) \cup Chained(max))
=============================================================================
