------------------------------- MODULE Approx -------------------------------
(* Numbers with an error bound: q = [v |-> value, e |-> bound on the absolute error], and first order (rounded up)
   propagation through the operations that the outputs are made with.  A quantity whose error bound is not finite
   puts no obligation on what is compared with it.                                                              *)
EXTENDS F64

Q(v, e) == [v |-> v, e |-> e]
QExact(v) == Q(v, F("0"))
QAdd(a, b) == Q(a.v (+) b.v, a.e (+) b.e)
QSub(a, b) == Q(a.v (-) b.v, a.e (+) b.e)
QNeg(a) == Q(FNeg(a.v), a.e)
QScale(k, a) == Q(k (.) a.v, FAbs(k) (.) a.e)
QMul(a, b) == Q(a.v (.) b.v, (FAbs(a.v) (.) b.e) (+) (FAbs(b.v) (.) a.e) (+) (a.e (.) b.e))
QInv(b) == LET m == FAbs(b.v) (-) b.e
           IN  IF FLt(F("0"), m) THEN Q(F("1") (/) b.v, b.e (/) (FAbs(b.v) (.) m)) ELSE Q(F("1") (/) b.v, F("1") (/) F("0"))
QDiv(a, b) == QMul(a, QInv(b))
QSq(a) == QMul(a, a)

\* obs lies within the error bound of q, plus the rounding of a few operations.  NaN and infinite obs never do,
\* except where the bound itself is not finite.
Slack == F("1e-14")
Near(obs, q) == IF ~FIsFinite(q.v) \/ ~FIsFinite(q.e) THEN TRUE
                ELSE FLe(FAbs(obs (-) q.v), q.e (+) (Slack (.) FAbs(q.v)))
\* relative distance of two numbers, 0 for equal numbers (two NaN are equal)
Same(a, b, rel, scale) == \/ FIsNaN(a) /\ FIsNaN(b)
                          \/ FEq(a, b)
                          \/ FLe(FAbs(a (-) b), rel (.) FMax(scale, FMax(FAbs(a), FAbs(b)))) /\ FIsFinite(a) /\ FIsFinite(b)
=============================================================================
