------------------------------- MODULE Rounding -------------------------------
(* C28: rounding to decimals, texts of numbers, names.                      *)
EXTENDS Num, FiniteSets

Ten(d) == IF d >= 0 THEN NPow("10", d) ELSE NDiv("1", NPow("10", -d))
(* The multiple of 10^-d nearest to x; half way, the one away from zero.    *)
Rounded(x, d) == NRound(x, d)
(* What an implementation may answer that scales by 10^d in doubles.  Up to *)
(* 2^52 a half is met exactly; next to one that is not, rounding decides.   *)
MayRound(x, d) ==
  LET t == NAbs(NMul(x, Ten(d)))
      h == NAdd(t, "0.5")
      g == NAbs(NSub(h, NRound(h, 0)))
      Scale(y) == NDiv(NRound(y, 0), Ten(d))
  IN  {Rounded(x, d)} \cup
      (IF NLe(g, NMul("1e-15", h)) /\ ~(NEq(g, "0") /\ NLt(h, "4503599627370496") /\ d >= 0)
       THEN {Scale(NSub(NMul(x, Ten(d)), "0.25")), Scale(NAdd(NMul(x, Ten(d)), "0.25"))} ELSE {})
(* The double nearest to a real, give or take the last digit.               *)
Same(got, x) == NFinite(got) /\ NLe(NAbs(NSub(got, x)), NAdd(NMul("1e-15", NAbs(x)), "1e-320"))
Nearest(got, x) == NFinite(got) /\ NLe(NAbs(NSub(got, x)), NAdd(NMul("1.2e-16", NAbs(x)), "1e-320"))

(* Texts of numbers: an automaton over one-character strings.               *)
Digit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitOf(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9
Blank == [at |-> "start", neg |-> FALSE, m |-> "0", down |-> 0, eneg |-> FALSE, e |-> 0]
Read(s, c) ==
  LET Go(a) == [s EXCEPT !.at = a]
      Take(a, dn) == [s EXCEPT !.at = a, !.m = NAdd(NMul("10", s.m), NOf(DigitOf(c))), !.down = @ + dn]
      Exp == [s EXCEPT !.at = "exp", !.e = 10 * @ + DigitOf(c)]
  IN
  CASE s.at \in {"start", "sign"} /\ Digit(c) -> Take("int", 0)
    [] s.at \in {"start", "sign"} /\ c = "."  -> Go("dot")
    [] s.at = "start" /\ c \in {"+", "-"}     -> [s EXCEPT !.at = "sign", !.neg = (c = "-")]
    [] s.at = "int" /\ Digit(c)               -> Take("int", 0)
    [] s.at = "int" /\ c = "."                -> Go("frac")
    [] s.at \in {"dot", "frac"} /\ Digit(c)   -> Take("frac", 1)
    [] s.at \in {"int", "frac"} /\ c \in {"e", "E"} -> Go("e")
    [] s.at = "e" /\ c \in {"+", "-"}         -> [s EXCEPT !.at = "esign", !.eneg = (c = "-")]
    [] s.at \in {"e", "esign", "exp"} /\ Digit(c) -> Exp
    [] OTHER -> Go("bad")
IsNumber(s) == s.at \in {"int", "frac", "exp"}
ValueOf(s) == LET e == (IF s.eneg THEN -s.e ELSE s.e) - s.down
                  v == IF e >= 0 THEN NMul(s.m, NPow("10", e)) ELSE NDiv(s.m, NPow("10", -e))
              IN  IF s.neg THEN NNeg(v) ELSE v
RECURSIVE ReadAll(_, _)
ReadAll(s, cs) == IF cs = <<>> THEN s ELSE ReadAll(Read(s, Head(cs)), Tail(cs))

(* The same language said by its grammar: [sign] (digits [. digits*] |      *)
(* . digits) [e [sign] digits].                                             *)
AllDigits(cs) == \A i \in 1..Len(cs) : Digit(cs[i])
Unsigned(cs) == IF cs # <<>> /\ Head(cs) \in {"+", "-"} THEN Tail(cs) ELSE cs
Mantissa(cs) == (cs # <<>> /\ AllDigits(cs)) \/
  \E i \in 1..Len(cs) : cs[i] = "." /\ Len(cs) > 1 /\ AllDigits(SubSeq(cs, 1, i - 1)) /\ AllDigits(SubSeq(cs, i + 1, Len(cs)))
Exponent(cs) == LET d == Unsigned(cs) IN d # <<>> /\ AllDigits(d)
Numeral(cs) == LET u == Unsigned(cs) IN
  Mantissa(u) \/ \E i \in 1..Len(u) : u[i] \in {"e", "E"} /\ Mantissa(SubSeq(u, 1, i - 1)) /\ Exponent(SubSeq(u, i + 1, Len(u)))

(* Names.                                                                   *)
SideName(n) == CASE n = 0 -> "BUY" [] n = 2 -> "SELL" [] n = 4 -> "HOLD" [] OTHER -> "UNKNOWN"
Minutes(n) == 60 * n   Hours(n) == 3600 * n   Days(n) == 86400 * n
Lasts == [ThousandMilliseconds |-> 1, TenSecond |-> 10, FifteenSecond |-> 15, ThirtySecond |-> 30,
  OneMin |-> Minutes(1), ThreeMin |-> Minutes(3), FiveMin |-> Minutes(5), TenMin |-> Minutes(10),
  FifteenMin |-> Minutes(15), ThirtyMin |-> Minutes(30), OneHour |-> Hours(1), TwoHour |-> Hours(2),
  ThreeHour |-> Hours(3), FourHour |-> Hours(4), SixHour |-> Hours(6), SevenHour |-> Hours(7),
  EightHour |-> Hours(8), TwelveHour |-> Hours(12), OneDay |-> Days(1), TwoDay |-> Days(2),
  ThreeDay |-> Days(3), FiveDay |-> Days(5), SevenDay |-> Days(7), FifteenDay |-> Days(15), OneWeek |-> Days(7),
  TwoWeek |-> Days(14), ThreeWeek |-> Days(21), OneMonth |-> Days(30), ThreeMonth |-> Days(90),
  SixMonth |-> Days(180), NineMonth |-> Days(270), OneYear |-> Days(365)]
=============================================================================
