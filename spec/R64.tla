------------------------------- MODULE R64 -------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers for TLC.                                       *)
(*                                                                          *)
(* A number is the pair <<hi, lo>> of the two signed 32-bit halves of its   *)
(* bit pattern, so that it survives TLC's 32-bit integers and JSON.         *)
(* The definitions below give the MEANING of every operation (the double    *)
(* nearest to the exact real result); TLC evaluates them with the Java      *)
(* class R64 (R64.java), which is trusted and exercised by R64Test.tla.     *)
(***************************************************************************)
EXTENDS Integers, Reals, Sequences

LOCAL Pow2[n \in Int] == IF n = 0 THEN 1 ELSE IF n > 0 THEN 2 * Pow2[n-1] ELSE Pow2[n+1] / 2

IsHalf(n) == n \in Int /\ -Pow2[31] <= n /\ n < Pow2[31]
IsR64(x)  == DOMAIN x = {1, 2} /\ IsHalf(x[1]) /\ IsHalf(x[2])

LOCAL Bits(x)  == (IF x[1] < 0 THEN x[1] + Pow2[32] ELSE x[1]) * Pow2[32]
                  + (IF x[2] < 0 THEN x[2] + Pow2[32] ELSE x[2])
LOCAL Expo(x)  == (Bits(x) \div Pow2[52]) % Pow2[11]
LOCAL Mant(x)  == Bits(x) % Pow2[52]
LOCAL IsFin(x) == Expo(x) # Pow2[11] - 1
\* The real number a finite double stands for.
Val(x) == (IF x[1] < 0 THEN -1 ELSE 1) *
          (IF Expo(x) = 0 THEN Mant(x) * Pow2[-1074]
                          ELSE (Pow2[52] + Mant(x)) * Pow2[Expo(x) - 1075])
LOCAL Dist(r, s) == IF r >= s THEN r - s ELSE s - r
\* A double nearest to the real r (ties to even are the evaluator's choice).
Nearest(r) == CHOOSE x : IsR64(x) /\ IsFin(x) /\ \A y :
                 (IsR64(y) /\ IsFin(y)) => Dist(Val(x), r) <= Dist(Val(y), r)

RAdd(a, b) == Nearest(Val(a) + Val(b))
RSub(a, b) == Nearest(Val(a) - Val(b))
RMul(a, b) == Nearest(Val(a) * Val(b))
RDiv(a, b) == Nearest(Val(a) / Val(b))
RNeg(a)    == Nearest(-Val(a))
RAbs(a)    == Nearest(Dist(Val(a), 0))
RLt(a, b)  == Val(a) < Val(b)
RLeq(a, b) == Val(a) <= Val(b)
RMin(a, b) == IF RLeq(a, b) THEN a ELSE b
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
\* integer n as a number / truncation towards zero of a number
RI(n)      == Nearest(n)
RTrunc(a)  == CHOOSE n \in Int : /\ Dist(n, 0) <= Dist(Val(a), 0)
                                 /\ Dist(Val(a), 0) < Dist(n, 0) + 1
                                 /\ n * Val(a) >= 0
\* decimal literal, e.g. R("2.8e-6")
R(str)     == CHOOSE x : IsR64(x)
\* not a number / defined number
RIsNaN(a)  == ~IsFin(a) /\ Mant(a) # 0
RNaN       == <<2146959360, 0>>
RInf       == <<2146435072, 0>>
\* an absent number
None       == <<>>
\* elementary functions (correctly rounded up to one unit in the last place)
RSqrt(a)   == CHOOSE x : IsR64(x)
RExp(a)    == CHOOSE x : IsR64(x)
RLn(a)     == CHOOSE x : IsR64(x)
RPow(a, b) == CHOOSE x : IsR64(x)
RSin(a)    == CHOOSE x : IsR64(x)
RCos(a)    == CHOOSE x : IsR64(x)
RAsin(a)   == CHOOSE x : IsR64(x)
RAtan(a)   == CHOOSE x : IsR64(x)
RTanh(a)   == CHOOSE x : IsR64(x)
RFloor(a)  == CHOOSE x : IsR64(x)
RPi        == R("3.141592653589793")
\* readable decimal rendering, for messages only
RShow(a)   == CHOOSE s \in STRING : TRUE
\* sum of a sequence of numbers, left to right
RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN RI(0) ELSE RAdd(RSumTo(s, n-1), s[n])
RSum(s)    == RSumTo(s, Len(s))
\* |a - b| <= rel * max(|a|,|b|) + abs; two undefined numbers agree
RClose(a, b, rel, ab) ==
    IF RIsNaN(a) \/ RIsNaN(b) THEN RIsNaN(a) /\ RIsNaN(b)
    ELSE a = b \/ RLeq(RAbs(RSub(a, b)), RAdd(RMul(rel, RMax(RAbs(a), RAbs(b))), ab))

a (+) b     == RAdd(a, b)
a (-) b     == RSub(a, b)
a (.) b     == RMul(a, b)
a (/) b     == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLeq(a, b)
a \succ b   == RLt(b, a)
a \succeq b == RLeq(b, a)

Zero == <<0, 0>>
One  == <<1072693248, 0>>
Two  == <<1073741824, 0>>
==========================================================================
