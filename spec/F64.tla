-------------------------------- MODULE F64 --------------------------------
(* IEEE 754 binary64 arithmetic for TLC.

   A number is an opaque value.  TLC evaluates the operators below with the Java methods of class aga8tla.F64
   (see /verif/java), which implement them with IEEE double arithmetic and java.lang.StrictMath; the right-hand
   sides written here are never evaluated.  Numbers never occur in states: states hold the 16-digit hexadecimal
   bit patterns (strings) that the implementation logged, and FHex turns them into numbers.                   *)
LOCAL INSTANCE Integers

LOCAL Native == CHOOSE r \in {} : TRUE

a (+) b == Native          \* a + b
a (-) b == Native          \* a - b
a (.) b == Native          \* a * b
a (/) b == Native          \* a / b
F(s) == Native             \* decimal string to number
FI(n) == Native            \* integer to number
FHex(s) == Native          \* bit pattern (16 hexadecimal digits) to number
FBits(a) == Native         \* number to bit pattern
FStr(a) == Native          \* number to decimal string (shortest)
FNeg(a) == Native
FAbs(a) == Native
FMax(a, b) == Native
FSqrt(a) == Native
FExp(a) == Native
FLn(a) == Native
FPow(a, b) == Native       \* a to the power b, both numbers
FPowI(a, n) == Native      \* a to the power n, n an integer
FLt(a, b) == Native        \* a < b    (FALSE when a or b is NaN)
FLe(a, b) == Native        \* a <= b   (FALSE when a or b is NaN)
FEq(a, b) == Native        \* a = b    (FALSE when a or b is NaN)
FIsNaN(a) == Native
FIsFinite(a) == Native
FSum(f) == Native          \* sum of the values of a function on an integer interval, in order
FSumAbs(f) == Native       \* sum of their absolute values
FVec(f) == Native          \* the same function on 1..n, evaluated once, as a tuple
FHexVec(f) == Native       \* the numbers of a sequence of bit patterns
FDecVec(f) == Native       \* the numbers of a sequence of decimal strings
Rnd(seed, k, n) == Native  \* a number in 0..n-1, a fixed pseudo-random function of seed and k (integers)
FRnd(seed, k) == Native    \* a number in [0, 1), a fixed pseudo-random function of seed and k
RndMix(seed, k) == Native     \* a number in 0..2^30-1 to seed further choices with
FScale2(a, n) == Native    \* a * 2^n, n an integer
IntOf(s) == Native         \* decimal string to integer
FNext(a) == Native         \* the next larger number
FPrev(a) == Native         \* the next smaller number

FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)
Zero == F("0")
One == F("1")
Two == F("2")
=============================================================================
