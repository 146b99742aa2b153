------------------------------ MODULE Volumes ------------------------------
(* C10: volume accumulators.                                                *)
EXTENDS Differences

VolumeKinds == {"Obv", "AD", "NVI", "VPT", "ForceIndex", "EOM", "CMF", "Vwma"}

VolumeStep(k, p, B, i, st, L) ==
  CASE k = "Obv" ->
         LET x == IF i = 1 THEN Z
                  ELSE IF NLt(B.c[i-1], B.c[i]) THEN NAdd(st.x, B.v[i])
                  ELSE IF NLt(B.c[i], B.c[i-1]) THEN NSub(st.x, B.v[i])
                  ELSE st.x
         IN  Ret([x |-> x], [Value |-> <<x, B.mv>>])
    [] k = "AD" ->
         LET x == NAdd(IF i = 1 THEN Z ELSE st.x, MoneyFlow(B, i))
         IN  Ret([x |-> x], [Value |-> <<x, B.mv>>])
    [] k = "NVI" ->
         LET x == IF i = 1 THEN "1000"
                  ELSE IF NLt(B.v[i-1], B.v[i]) THEN st.x
                  ELSE NMul(st.x, NDiv(B.c[i], B.c[i-1]))
         IN  Ret([x |-> x], [Value |-> <<x, "1">>])
    [] k = "VPT" ->   \* against the close Period bars earlier, the first close before that
         LET pc == IF i > p.Period THEN B.c[i - p.Period] ELSE B.c[1]
             x  == NAdd(IF i = 1 THEN Z ELSE st.x, NMul(B.v[i], DivZ(NSub(B.c[i], pc), pc)))
         IN  Ret([x |-> x], [Value |-> <<x, B.mv>>])
    [] k = "ForceIndex" ->  \* the first bar's change is from nothing
         LET f == NMul(B.v[i], IF i = 1 THEN B.c[1] ELSE NSub(B.c[i], B.c[i-1]))
             x == EmaStep(p.Period, i, IF i = 1 THEN f ELSE st.x, f)
         IN  Ret([x |-> x], [Value |-> <<x, NMul(B.mp, B.mv)>>])
    [] k = "EOM" ->
         LET d == IF i = 1 THEN Hl2(B, 1) ELSE NSub(Hl2(B, i), Hl2(B, i-1))
             r == DivZ(NDiv(B.v[i], "100000000"), NSub(B.h[i], B.l[i]))
             e == DivZ(d, r)
             w == Push(IF i = 1 THEN <<>> ELSE st.w, e, p.Period)
             m == NMax(IF i = 1 THEN "1" ELSE st.m, NAbs(e))
         IN  Ret([w |-> w, m |-> m], [Value |-> <<Mean(w), m>>])
    [] k = "CMF" ->
         LET n == Len(LastN(B.v, i, p.Period))
             s == NSumSeq([j \in 1..n |-> MoneyFlow(B, i - n + j)])
             q == NSumSeq(LastN(B.v, i, p.Period))
         IN  Ret(<<>>, [Value |-> <<DivZ(s, q), "1">>])
    [] k = "Vwma" ->
         LET n == Len(LastN(B.v, i, p.Period))
             s == NSumSeq([j \in 1..n |-> NMul(B.c[i - n + j], B.v[i - n + j])])
             q == NSumSeq(LastN(B.v, i, p.Period))
         IN  Ret(<<>>, [Value |-> Price(B, DivZ(s, q))])
=============================================================================
