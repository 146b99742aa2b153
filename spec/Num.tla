-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arithmetic on real numbers for TLC.                                     *)
(*                                                                         *)
(* A number is a string holding a decimal literal ("12.5", "-3e-7").  The  *)
(* operators below are evaluated by java/Num.java with 40 significant      *)
(* digits, so a value computed here is, for the purpose of a comparison    *)
(* with an IEEE double, the real number the definition denotes.            *)
(*                                                                         *)
(* Four strings are not numbers:                                           *)
(*   "NaN", "Inf", "-Inf"  the IEEE results of dividing by exact zero;     *)
(*   "?"                   "unknown": the definition is ill-conditioned    *)
(*                         here (a divisor that is zero only up to         *)
(*                         rounding), any implementation result is         *)
(*                         accepted.  "?" is absorbing.                    *)
(*                                                                         *)
(* The TLA+ right-hand sides are placeholders (TLC replaces every operator *)
(* below); the comment beside each is its meaning.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

NumStub == CHOOSE x \in {} : TRUE

NOf(n)        == NumStub  \* the integer n
NFrac(n, d)   == NumStub  \* n / d for integers n, d
NAdd(a, b)    == NumStub  \* a + b
NSub(a, b)    == NumStub  \* a - b
NMul(a, b)    == NumStub  \* a * b
NDiv(a, b)    == NumStub  \* a / b, IEEE results when b = 0
NDivU(a, b, m) == NumStub \* a / b, "?" when |b| is below 1e-9 * |m|
NNeg(a)       == NumStub  \* -a
NAbs(a)       == NumStub  \* |a|
NSqrt(a)      == NumStub  \* square root of max(a, 0) when a is rounding noise, NaN when a < 0
NAtan(a)      == NumStub  \* arc tangent, radians
NPow(a, n)    == NumStub  \* a ^ n for an integer n
NMax(a, b)    == NumStub
NMin(a, b)    == NumStub
NCmp(a, b)    == NumStub  \* -1, 0, 1; 2 when a or b is NaN or "?"
NLt(a, b)     == NumStub  \* a < b (FALSE on NaN, as in IEEE)
NLe(a, b)     == NumStub
NEq(a, b)     == NumStub
NFinite(a)    == NumStub  \* a is a number
NExact(a)     == NumStub  \* a short binary fraction: a * 2^30 is an integer and |a| < 2^18
NSumSeq(s)    == NumStub  \* sum of a sequence of numbers
NMaxSeq(s)    == NumStub
NMinSeq(s)    == NumStub
NRound(a, d)  == NumStub  \* a rounded half away from zero to d decimals
NFloor(a)     == NumStub  \* floor, as a TLA+ integer
(* |a - b| <= tol * max(1, |a|, |b|, |scale|): both sides denote the same  *)
(* real up to rounding; NaN only matches NaN, "?" matches everything.      *)
NClose(a, b, scale) == NumStub
(* Three-valued comparison for branching near a tie: the set of truth      *)
(* values "a < b" may take in an implementation that rounds.               *)
NMayLt(a, b, scale) == NumStub
NMayLe(a, b, scale) == NumStub
=============================================================================
