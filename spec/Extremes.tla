------------------------------ MODULE Extremes ------------------------------
(* C06: window extremes, pivots, Donchian channel.  All values are inputs   *)
(* or midpoints of two inputs.                                              *)
EXTENDS Windows

ExtremeKinds == {"ta.Max", "ta.Min", "ta.Highest", "ta.Lowest", "ta.PivotHigh",
                 "ta.PivotLow", "ta.PivotMax", "ta.PivotMin", "Donchian"}

(* ta.PivotMax/Min(values, index, left, right): the extreme within reach of *)
(* the index and where it is: at the index itself, else where it is nearest *)
(* to the index on the side that holds it (either, when both do).           *)
FarMax(S, ks) == NMaxSeq([j \in 1..Len(ks) |-> S[ks[j]]])
Side1(S, at, left)     == [j \in 1..(IF at - left < 1 THEN at ELSE left + 1) |-> at - j + 1]
Side2(S, at, right, n) == [j \in 1..(IF at + right > n THEN n - at + 1 ELSE right + 1) |-> at + j - 1]
FirstAt(S, ks, v) == ks[CHOOSE j \in 1..Len(ks) : NEq(S[ks[j]], v) /\ \A q \in 1..(j-1) : ~NEq(S[ks[q]], v)]
PivotFar(S, n, at, left, right, max) ==
  LET a  == Side1(S, at, left)
      b  == Side2(S, at, right, n)
      Ex(ks) == LET w == [j \in 1..Len(ks) |-> S[ks[j]]] IN IF max THEN NMaxSeq(w) ELSE NMinSeq(w)
      va == Ex(a)
      vb == Ex(b)
      better(x, y) == IF max THEN NLt(y, x) ELSE NLt(x, y)
      OnA == [v |-> va, at |-> NOf(FirstAt(S, a, va) - 1)]
      OnB == [v |-> vb, at |-> NOf(FirstAt(S, b, vb) - 1)]
  IN  IF better(va, vb) THEN {OnA} ELSE IF better(vb, va) THEN {OnB} ELSE {OnA, OnB}

ExtremeStep(k, p, B, i, st, L) ==
  CASE k \in {"ta.Max"} -> Ret(<<>>, [Value |-> <<MaxAt(B.c, i, p.Period), Z>>])
    [] k \in {"ta.Min"} -> Ret(<<>>, [Value |-> <<MinAt(B.c, i, p.Period), Z>>])
    [] k = "ta.Highest" -> Ret(<<>>, [Value |-> <<IF p.Period < 1 THEN B.c[i] ELSE MaxAt(B.c, i, p.Period), Z>>])
    [] k = "ta.Lowest"  -> Ret(<<>>, [Value |-> <<IF p.Period < 1 THEN B.c[i] ELSE MinAt(B.c, i, p.Period), Z>>])
    [] k \in {"ta.PivotHigh", "ta.PivotLow"} ->
         LET w == LastN(B.c, i, p.Left + p.Right + 1)
             m == IF k = "ta.PivotHigh" THEN NMaxSeq(w) ELSE NMinSeq(w)
         IN  Ret(<<>>, [Value |-> <<IF i > p.Left + p.Right /\ NEq(B.c[i - p.Right], m)
                                    THEN m ELSE Z, Z>>])
    [] k \in {"ta.PivotMax", "ta.PivotMin"} ->
         UNION { Ret(<<>>, [Value |-> <<r.v, Z>>, Position |-> <<r.at, Z>>])
                 : r \in PivotFar(B.c, Len(B.c), i, p.Left, p.Right, k = "ta.PivotMax") }
    [] k = "Donchian" ->
         LET u == MaxAt(B.c, i, p.Period)  d == MinAt(B.c, i, p.Period)
         IN  Ret(<<>>, [Upper |-> <<u, Z>>, Lower |-> <<d, Z>>, Middle |-> Price(B, Half(NAdd(u, d)))])
=============================================================================
