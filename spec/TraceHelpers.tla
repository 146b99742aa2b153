----------------------------- MODULE TraceHelpers -----------------------------
(* Calls of the real helpers.  A trace is one argument with every call made  *)
(* with it: [f, d, got, err].                                                *)
EXTENDS Rounding, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Number(c, S) == S # {} /\ c.err = "" /\ \E r \in S : Same(c.got, r)
Fits(T, c) ==
  CASE c.f = "parse" ->
         LET s == ReadAll(Blank, T.text) IN
         IF IsNumber(s)
         THEN IF NLt(NAbs(ValueOf(s)), "1.7e308") THEN c.err = "" /\ Nearest(c.got, ValueOf(s)) ELSE TRUE
         ELSE c.err = "refused" /\ NEq(c.got, "0")
    [] c.f = "parse a value" -> c.err = "refused" /\ NEq(c.got, "0")
    [] c.f = "parse printed" -> c.err = "" /\ NEq(c.got, T.x)
    [] c.f \in {"round", "ta.round"} -> Number(c, MayRound(T.x, c.d))
    [] c.f = "round whole" -> c.err = "" /\ c.got = T.x
    [] c.f = "round float32" -> c.err = "" /\ NFinite(c.got) /\ \E r \in MayRound(T.x, c.d) : NLe(NAbs(NSub(c.got, r)), NMul("1e-7", NAbs(r)))
    [] c.f = "decimal" -> c.err = "" /\ Nearest(c.got, Rounded(T.x, -c.d))
    [] c.f = "number or" -> c.err = "" /\ c.got = T.x
    [] c.f = "nan or" -> c.err = "" /\ c.got = T.x
    [] c.f = "candles" -> c.err = "" /\ T.back = T.text
    [] c.f = "file" -> c.err = "" /\ c.got = "0"      \* nothing differs
    [] c.f \in {"broken", "by value", "missing"} -> c.err = "refused"
    [] c.f = "names" -> c.err = "" /\ T.back = [j \in 1..Len(T.nums) |-> SideName(T.nums[j])]
    [] c.f = "lasts" -> c.err = "" /\ T.x \in DOMAIN Lasts /\ c.got = ToString(Lasts[T.x])
Init == tid \in 1..Len(Traces) /\ i = 0
Next == LET T == Traces[tid]  c == T.calls[i + 1] IN
        /\ i < Len(T.calls)
        /\ IF Fits(T, c) THEN TRUE ELSE PrintT(<<"REJECT", T.id, i + 1, c>>) /\ FALSE
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ i' = Len(T.calls) => PrintT(<<"DONE", T.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================
