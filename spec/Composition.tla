---------------------------- MODULE Composition ----------------------------
(* Gas compositions: when they are valid, and what normalising does.  x is a sequence of 21 numbers.

   The sum of 21 doubles depends, in its last bits, on the order of summation; SumErr bounds by how much.  A verdict
   is fixed only where every order of summation gives it.                                                       *)
EXTENDS F64, Components, FiniteSets

XSum(x) == FSum(x)
XAbs(x) == FSumAbs(x)
\* a half unit in the last place for every addition that rounds (adding zero does not), and one more for the comparison
LOCAL Nonzero(x) == Cardinality({i \in 1..NC : ~FEq(x[i], Zero)})
SumErr(x) == (F("1.2e-16") (.) FI(Nonzero(x) + 1)) (.) XAbs(x)

AllFinite(x) == \A i \in 1..Len(x) : FIsFinite(x[i])
NonNegative(x) == \A i \in 1..Len(x) : FLe(Zero, x[i])

\* Distance bounds from a number m: the sum is surely within tol of m, possibly within tol of m.
LOCAL Dist(x, m) == FAbs(XSum(x) (-) m)
LOCAL SurelyWithin(x, m, tol) == FLt(Dist(x, m) (+) SumErr(x), tol)
LOCAL MaybeWithin(x, m, tol) == FLe(Dist(x, m) (-) SumErr(x), tol)

EmptyTol == F("1e-10")
SumTol == F("1e-2")

(* The verdicts that validity checking may give: a set with one element except within rounding of an edge. *)
Verdicts(x) ==
  IF ~AllFinite(x) THEN {"badsum"}                              \* the sum is infinite or not a number
  ELSE IF ~FIsFinite(XAbs(x)) THEN {"ok", "empty", "badsum"}    \* the sum overflows or not, depending on the order
  ELSE (IF MaybeWithin(x, One, SumTol) THEN {"ok"} ELSE {})
       \union (IF MaybeWithin(x, Zero, EmptyTol) THEN {"empty"} ELSE {})
       \union (IF SurelyWithin(x, One, SumTol) \/ SurelyWithin(x, Zero, EmptyTol) THEN {} ELSE {"badsum"})

(* A composition on which calculations are meaningful. *)
Valid(x) == /\ AllFinite(x)
            /\ NonNegative(x)
            /\ MaybeWithin(x, One, SumTol)

(* Normalising x may answer ret and leave y. *)
Tiny == F("2.3e-308")
NormalizeOk(x, ret, y) ==
  LET total == XSum(x)
      same == \A i \in 1..NC : FBits(x[i]) = FBits(y[i])
  IN  IF AllFinite(x) /\ NonNegative(x) /\ FIsFinite(total) /\ FLt(Tiny, total) /\ FIsFinite(One (/) total)
      THEN /\ ret = "ok"
           /\ FLe(FAbs(XSum(y) (-) One), F("1e-13"))
           /\ \A i \in 1..NC : \/ FEq(x[i], Zero) /\ FEq(y[i], Zero)
                               \/ FLe(FAbs(y[i] (-) (x[i] (/) total)), (F("1e-14") (.) (x[i] (/) total)) (+) Tiny)
      ELSE IF \/ AllFinite(x) /\ FIsFinite(XAbs(x)) /\ FLt(SumErr(x), FAbs(total)) /\ ~FLt(Zero, total)
              \/ FIsNaN(total)
              \/ \A i \in 1..NC : FEq(x[i], Zero)
      THEN ret = "empty" /\ same
      ELSE ret \in {"ok", "empty"} /\ (ret = "empty" => same)
=============================================================================
