----------------------------- MODULE Elementwise -----------------------------
(* C27: operators on series.  The first operand is column c, the second o.  *)
EXTENDS Windows

ElementwiseKinds == {"Add", "AddBy", "Subtract", "Multiply", "MultiplyBy", "Divide", "DivideBy",
   "Diff", "PercentDiff", "ShiftRight", "ShiftRightAndFillBy", "RoundDigits", "RoundDigitsAll",
   "GenerateNumbers", "Pow", "ExtractSign", "KeepPositives", "KeepNegatives", "Sum", "Sqrt", "Abs",
   "Cum", "Mean", "Cross"}

V1(v) == Ret(<<>>, [Value |-> <<v, "1">>])
Sq(B) == NMul(B.mp, B.mp)
ElementwiseStep(k, p, B, i, st, L) ==
  LET x == B.c[i]  y == B.o[i]
      Back(n) == IF i > n THEN B.c[i - n] ELSE Z
  IN
  CASE k = "Add"         -> V1(NAdd(x, y))
    [] k = "AddBy"       -> V1(NAdd(x, p.By))
    [] k = "Subtract"    -> V1(NSub(x, y))
    [] k = "Multiply"    -> V1(NMul(x, y))
    [] k = "MultiplyBy"  -> V1(NMul(x, p.By))
    [] k = "Divide"      -> V1(DivZ(x, y))
    [] k = "DivideBy"    -> V1(NDiv(x, p.By))
    [] k = "Diff"        -> V1(NSub(x, Back(p.Period)))
    [] k = "PercentDiff" -> V1(IF i > p.Period THEN NDiv(NSub(x, Back(p.Period)), Back(p.Period)) ELSE Z)
    [] k = "ShiftRight"  -> V1(Back(p.Period))
    [] k = "ShiftRightAndFillBy" -> V1(IF i > p.Period THEN B.c[i - p.Period] ELSE p.Fill)
    [] k \in {"RoundDigits", "RoundDigitsAll"} -> V1(NRound(x, p.Digits))
    [] k = "GenerateNumbers" -> V1(NAdd(p.Begin, NMul(p.Step, NOf(i - 1))))
    [] k = "Pow"           -> V1(NPow(x, p.Exp))
    [] k = "ExtractSign"   -> V1(IF NLe(Z, x) THEN "1" ELSE "-1")
    [] k = "KeepPositives" -> V1(NMax(x, Z))
    [] k = "KeepNegatives" -> V1(NMin(x, Z))
    [] k = "Sum"  -> V1(NSumSeq(LastN(B.c, i, p.Period)))
    [] k = "Sqrt" -> V1(NSqrt(x))
    [] k = "Abs"  -> V1(NAbs(x))
    [] k = "Cum"  -> V1(NSumSeq(SubSeq(B.c, 1, i)))
    [] k = "Mean" -> V1(Mean(SubSeq(B.c, 1, i)))
    [] k = "Cross" ->
         IF i = 1 THEN Ret(<<>>, [Over |-> Free, Under |-> Free])
         ELSE Ret(<<>>, [Over  |-> <<IF NLt(p.At, x) /\ NLt(B.c[i-1], p.At) THEN "1" ELSE Z, Z>>,
                         Under |-> <<IF NLt(x, p.At) /\ NLt(p.At, B.c[i-1]) THEN "1" ELSE Z, Z>>])
=============================================================================
