----------------------------- MODULE Regression -----------------------------
(* C25: least squares.                                                      *)
EXTENDS Windows

RegressionKinds == {"ta.LinearReg", "ta.LinearRegSlope", "ta.LinearRegIntercept", "ta.LinearRegAngle",
                    "LeastSquare", "MovingLeastSquare", "LinearRegressionUsingLeastSquare",
                    "MovingLinearRegressionUsingLeastSquare", "LinearRegressionCandles"}

(* The free-form regressions take x from column o and y from column c. *)
XScale(B) == B.mp
RegressionStep(k, p, B, i, st, L) ==
  CASE k = "ta.LinearReg" -> Ret(<<>>, [Value |-> Price(B, RegAt(B.c, i, p.Period))])
    [] k \in {"ta.LinearRegSlope", "ta.LinearRegIntercept", "ta.LinearRegAngle"} ->
         IF i < p.Period THEN Ret(<<>>, [Value |-> Price(B, Z)])
         ELSE LET f == Fit(LastN(B.c, i, p.Period)) IN
              Ret(<<>>, [Value |->
                CASE k = "ta.LinearRegSlope" -> Price(B, f.m)
                  [] k = "ta.LinearRegIntercept" -> Price(B, f.b)
                  [] k = "ta.LinearRegAngle" ->
                       <<NMul(NAtan(f.m), "57.29577951308232087679815481410517"), NMax("90", NMul("90", B.mp))>>])
    [] k = "LeastSquare" ->
         IF i = 1 THEN Ret(<<>>, [M |-> Free, B |-> Free])
         ELSE LET f == FitXY(SubSeq(B.o, 1, i), SubSeq(B.c, 1, i))
              IN  Ret(<<>>, [M |-> <<f.m, p.Scale>>, B |-> <<f.b, p.Scale>>])
    [] k = "MovingLeastSquare" ->
         LET f == FitXY(LastN(B.o, i, p.Period), LastN(B.c, i, p.Period))
         IN  Ret(<<>>, [M |-> <<f.m, p.Scale>>, B |-> <<f.b, p.Scale>>])
    [] k = "LinearRegressionUsingLeastSquare" ->  \* the last fitted value of each prefix
         IF i = 1 THEN Ret(<<>>, [Value |-> Free, First |-> Free, Len |-> Free])
         ELSE LET f == FitXY(SubSeq(B.o, 1, i), SubSeq(B.c, 1, i))
              IN  Ret(<<>>, [Value |-> <<NAdd(f.b, NMul(f.m, B.o[i])), p.Scale>>,
                            First |-> <<NAdd(f.b, NMul(f.m, B.o[1])), p.Scale>>, Len |-> <<NOf(i), Z>>])
    [] k = "MovingLinearRegressionUsingLeastSquare" ->
         LET f == FitXY(LastN(B.o, i, p.Period), LastN(B.c, i, p.Period))
         IN  Ret(<<>>, [Value |-> <<NAdd(f.b, NMul(f.m, B.o[i])), p.Scale>>])
    [] k = "LinearRegressionCandles" ->
         LET c == RegAt(B.c, i, p.Length)
             w == Push(IF i = 1 THEN <<>> ELSE st.w, c, p.Smooth)
             e == EmaStep(p.Smooth, i, IF i = 1 THEN c ELSE st.e, c)
         IN  Ret([w |-> w, e |-> e],
                 [Open |-> Price(B, RegAt(B.o, i, p.Length)), High |-> Price(B, RegAt(B.h, i, p.Length)),
                  Low |-> Price(B, RegAt(B.l, i, p.Length)), Close |-> Price(B, c),
                  Signal |-> Price(B, IF p.UseSma THEN Mean(w) ELSE e)])
=============================================================================
