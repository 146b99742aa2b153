-------------------------------- MODULE Helpers --------------------------------
(* The helpers (C28) as a reader of calls: a text is read character by       *)
(* character, a number is rounded, a list of candles goes out and comes in.  *)
(* TLC explores every text, number and mask up to the bound, checks that the *)
(* automaton accepts exactly the numerals and that rounding is rounding, and *)
(* prints each call for the replay.                                          *)
EXTENDS Rounding, TLC, IOUtils
MaxLen == atoi(IOEnv.LEN)
Grid   == atoi(IOEnv.GRID)
Alphabet == <<"2", "5", ".", "-", "+", "e", " ", "x">>
VARIABLES text, s, call
vars == <<text, s, call>>
Pick(i) == IF i = 0 THEN <<>> ELSE <<i>>
Init == text = <<>> /\ s = Blank /\ call = <<1>>
Type == /\ Len(text) < MaxLen /\ Head(call) = 1
        /\ \E i \in 1..Len(Alphabet) :
             /\ text' = Append(text, Alphabet[i]) /\ s' = Read(s, Alphabet[i])
             /\ call' = Append(call, i)
(* a number n/8 to d decimals; n/2^k to 10^e *)
Round == /\ text = <<>> /\ call = <<1>> /\ UNCHANGED <<text, s>>
         /\ \E n \in -Grid..Grid, d \in -2..2 : call' = <<2, n, d>>
(* which of the fields of the candles of a list are set *)
Store == /\ text = <<>> /\ call = <<1>> /\ UNCHANGED <<text, s>>
         /\ \/ \E m \in 0..1023 : call' = <<3, m>>
            \/ \E a, b \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1023} : call' = <<3, a, b>>
Name == /\ text = <<>> /\ call = <<1>> /\ UNCHANGED <<text, s>>
        /\ \E a \in [1..3 -> 0..4] : call' = <<4, a[1], a[2], a[3]>>
Next == (Type \/ Round \/ Store \/ Name) /\ PrintT(<<"SCRIPT", call'>>)
Spec == Init /\ [][Next]_vars

SameLanguage == Head(call) = 1 => (IsNumber(s) <=> Numeral(text))
SameMachine  == Head(call) = 1 => s = ReadAll(Blank, text)
SignedValue  == (Head(call) = 1 /\ IsNumber(s) /\ Head(text) = "-") => NEq(ValueOf(s), NNeg(ValueOf(ReadAll(Blank, Tail(text)))))
Rounds == Head(call) = 2 =>
  LET x == NFrac(call[2], 8)  d == call[3]  r == Rounded(x, d)  u == NDiv("1", Ten(d))
      t == NMul(r, Ten(d))
  IN  /\ NLe(NMul("2", NAbs(NSub(x, r))), u)                                        \* nearest
      /\ NEq(t, NRound(t, 0))                                                       \* a multiple
      /\ NEq(Rounded(r, d), r)                                                      \* idempotent
      /\ NEq(Rounded(NNeg(x), d), NNeg(r))                                          \* symmetric
      /\ NLe(r, Rounded(NFrac(call[2] + 1, 8), d))                                  \* monotone
      /\ NEq(NMul("2", NAbs(NSub(x, r))), u) => NLt(NAbs(x), NAbs(r))               \* halves away from zero
      /\ (d >= 0 => MayRound(x, d) = {r})
=============================================================================
