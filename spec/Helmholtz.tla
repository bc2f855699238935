----------------------------- MODULE Helmholtz -----------------------------
(* Thermodynamics of a fluid whose Helmholtz energy a is  a / RT = alpha0 + alphar,  with

     alphar  a sum of terms f whose dependence on temperature is T^-u and whose dependence on density is given by
             b1 = D dL/dD, l2 = D^2 d2L/dD2, l3 = D^3 d3L/dD3 with L = ln f, each with an upper bound on the sum of
             the absolute values it is added up from (mb, m2, m3);
     alpha0  the ideal gas with the heat capacity correlation of Jaeschke and Schley.

   Everything the calculators report follows from these two by differentiation.  Quantities carry error bounds
   (module Approx) of Rel times the sum of the absolute values of what they are added up from.                  *)
EXTENDS F64, Approx, Components

Eps == F("1e-15")          \* densities up to this are treated as zero
Rel == F("1e-9")           \* the accuracy that is asked for

\* A term f = n * delta^k * exp(-delta^c) * T^-u (no exponential when c = 0); dc = delta^c.
PolyExp(f, u, k, c, dc) ==
  IF c = 0
  THEN [f |-> f, u |-> u, b1 |-> FI(k), l2 |-> FI(-k), l3 |-> FI(2 * k), mb |-> FI(k), m2 |-> FI(k), m3 |-> FI(2 * k)]
  ELSE LET y == FI(c) (.) dc
           y2 == FI(c - 1) (.) y
           y3 == FI(c - 2) (.) y2
       IN  [f |-> f, u |-> u, b1 |-> FI(k) (-) y, l2 |-> FI(-k) (-) y2, l3 |-> FI(2 * k) (-) y3,
            mb |-> FI(k) (+) y, m2 |-> FI(k) (+) y2, m3 |-> FI(2 * k) (+) FAbs(y3)]

(* Derivatives of alphar: a_ij = tau^i delta^j times the derivative, i times with respect to tau = 1/T and j times
   with respect to density.                                                                                       *)
Residual(terms) ==
  LET n  == Len(terms)
      E2 == FVec([k \in 1..n |-> (terms[k].b1 (.) terms[k].b1) (+) terms[k].l2])
      E3 == FVec([k \in 1..n |-> (terms[k].b1 (.) ((terms[k].b1 (.) terms[k].b1) (+) (F("3") (.) terms[k].l2))) (+) terms[k].l3])
      M2 == FVec([k \in 1..n |-> (terms[k].mb (.) terms[k].mb) (+) terms[k].m2])
      M3 == FVec([k \in 1..n |-> (terms[k].mb (.) ((terms[k].mb (.) terms[k].mb) (+) (F("3") (.) terms[k].m2))) (+) terms[k].m3])
      F1 == FVec([k \in 1..n |-> terms[k].f (.) terms[k].b1])
      F2 == FVec([k \in 1..n |-> terms[k].f (.) E2[k]])
      G1 == FVec([k \in 1..n |-> FAbs(terms[k].f) (.) terms[k].mb])
      G2 == FVec([k \in 1..n |-> FAbs(terms[k].f) (.) M2[k]])
      W(k) == FAbs(terms[k].u) (.) (FAbs(terms[k].u) (+) One)
      Pair(v, m) == Q(v, Rel (.) m)
  IN  [a00 |-> Pair(FSum([k \in 1..n |-> terms[k].f]), FSum([k \in 1..n |-> FAbs(terms[k].f)])),
       a01 |-> Pair(FSum(F1), FSum(G1)),
       a02 |-> Pair(FSum(F2), FSum(G2)),
       a03 |-> Pair(FSum([k \in 1..n |-> terms[k].f (.) E3[k]]), FSum([k \in 1..n |-> FAbs(terms[k].f) (.) M3[k]])),
       a10 |-> Pair(FSum([k \in 1..n |-> terms[k].f (.) terms[k].u]), FSum([k \in 1..n |-> FAbs(terms[k].f (.) terms[k].u)])),
       a20 |-> Pair(FSum([k \in 1..n |-> terms[k].f (.) terms[k].u (.) (terms[k].u (-) One)]),
                    FSum([k \in 1..n |-> FAbs(terms[k].f) (.) W(k)])),
       a11 |-> Pair(FSum([k \in 1..n |-> F1[k] (.) terms[k].u]), FSum([k \in 1..n |-> G1[k] (.) FAbs(terms[k].u)])),
       a12 |-> Pair(FSum([k \in 1..n |-> F2[k] (.) terms[k].u]), FSum([k \in 1..n |-> G2[k] (.) FAbs(terms[k].u)]))]

\* The derivative that the compressibility factor needs.
Residual01(terms) == Q(FSum([k \in 1..Len(terms) |-> terms[k].f (.) terms[k].b1]),
                       Rel (.) FSum([k \in 1..Len(terms) |-> FAbs(terms[k].f) (.) terms[k].mb]))

\* Only what pressure and dP/dD need; used by the density search.
Residual1(terms) ==
  LET n == Len(terms)
  IN  [a01 |-> FSum([k \in 1..n |-> terms[k].f (.) terms[k].b1]),
       a02 |-> FSum([k \in 1..n |-> terms[k].f (.) ((terms[k].b1 (.) terms[k].b1) (+) terms[k].l2)])]

(* The ideal gas.  c1, c2, c3 and n4..n7 (with temperatures th1..th4) are the coefficients of each component;
   components of mole fraction lim or less are left out.                                                       *)
LOCAL Sinh(y) == (FExp(y) (-) (One (/) FExp(y))) (/) Two
LOCAL Cosh(y) == (FExp(y) (+) (One (/) FExp(y))) (/) Two
Ideal(x, t, d, lim, C1(_), C2(_), C3(_), Hn(_, _), Th(_, _)) ==
  LET s  == SelectSeq([i \in 1..NC |-> i], LAMBDA i : FLt(lim, x[i]))
      ld == FLn(IF FLt(Eps, d) THEN d ELSE Eps)
      lt == FLn(t)
      \* the hyperbolic terms: the first and third with sinh, the second and fourth with cosh
      Hyp(i, k) ==
        LET th == Th(i, k)
            nk == Hn(i, k)
        IN  IF ~FLt(Zero, th) THEN [p |-> Zero, q |-> Zero, r |-> Zero]
            ELSE LET y == th (/) t
                     sh == Sinh(y)
                     ch == Cosh(y)
                 IN  IF k \in {1, 3}
                     THEN [p |-> nk (.) FLn(FAbs(sh)), q |-> nk (.) y (.) (ch (/) sh), r |-> nk (.) (y (/) sh) (.) (y (/) sh)]
                     ELSE [p |-> FNeg(nk (.) FLn(FAbs(ch))), q |-> FNeg(nk (.) y (.) (sh (/) ch)), r |-> nk (.) (y (/) ch) (.) (y (/) ch)]
      Comp(i) ==
        LET h  == FVec([k \in 1..4 |-> Hyp(i, k)])
            lx == FLn(x[i])
            c2 == C2(i) (/) t
            c3 == C3(i)
        IN  [a0 |-> x[i] (.) ((ld (+) lx (+) C1(i) (+) c2) (-) (c3 (.) lt) (+) FSum([k \in 1..4 |-> h[k].p])),
             a1 |-> x[i] (.) (c3 (+) c2 (+) FSum([k \in 1..4 |-> h[k].q])),
             a2 |-> FNeg(x[i] (.) (c3 (+) FSum([k \in 1..4 |-> h[k].r]))),
             m0 |-> x[i] (.) (FAbs(ld) (+) FAbs(lx) (+) FAbs(C1(i)) (+) FAbs(c2) (+) FAbs(c3 (.) lt) (+) FSum([k \in 1..4 |-> FAbs(h[k].p)])),
             m1 |-> x[i] (.) (FAbs(c3) (+) FAbs(c2) (+) FSum([k \in 1..4 |-> FAbs(h[k].q)])),
             m2 |-> x[i] (.) (FAbs(c3) (+) FSum([k \in 1..4 |-> FAbs(h[k].r)]))]
      all == FVec([k \in 1..Len(s) |-> Comp(s[k])])
      n == Len(s)
  IN  [a0 |-> Q(FSum([k \in 1..n |-> all[k].a0]), Rel (.) FSum([k \in 1..n |-> all[k].m0])),
       a1 |-> Q(FSum([k \in 1..n |-> all[k].a1]), Rel (.) FSum([k \in 1..n |-> all[k].m1])),
       a2 |-> Q(FSum([k \in 1..n |-> all[k].a2]), Rel (.) FSum([k \in 1..n |-> all[k].m2]))]

(* Every output at composition with molar mass mm, temperature t and density d. *)
Compressibility(r) == QAdd(Q(One, Rel), r.a01)
Pressure(R, t, d, r) == QScale(d (.) R (.) t, Compressibility(r))
PropertiesOf(R, mm, t, d, r, i) ==
  LET rt == R (.) t
      one == Q(One, Rel)
      z  == Compressibility(r)
      p  == QScale(d (.) rt, z)
      k2 == QAdd(QAdd(one, QScale(Two, r.a01)), r.a02)
      dpdd == QScale(rt, k2)
      dpdt1 == QScale(R, QSub(z, r.a11))                      \* (dP/dT) / D
      u  == QScale(rt, QAdd(i.a1, r.a10))
      s  == QScale(R, QSub(QAdd(i.a1, r.a10), QAdd(i.a0, r.a00)))
      g  == QScale(rt, QAdd(z, QAdd(i.a0, r.a00)))
      h  == QAdd(u, QScale(rt, z))
      cv == QNeg(QScale(R, QAdd(i.a2, r.a20)))
      pos == FLt(Eps, d)
      cp == IF pos THEN QAdd(cv, QDiv(QScale(t, QSq(dpdt1)), dpdd)) ELSE QAdd(cv, Q(R, Rel (.) R))
      \* at (practically) zero density: enthalpy and Gibbs energy of the ideal gas, by the same formula with z = 1
      w2 == QScale(F("1000") (/) mm, QMul(QDiv(cp, cv), dpdd))
      w  == IF FLt(w2.v, Zero) THEN Q(Zero, IF FLt(FNeg(w2.e), w2.v) THEN FSqrt(w2.e) ELSE Zero)
            ELSE Q(FSqrt(w2.v), IF FLt(w2.e, w2.v (/) Two) THEN w2.e (/) FSqrt(w2.v) ELSE FSqrt(Two (.) w2.e))
      w2p == IF FLt(w2.v, Zero) THEN Q(Zero, IF FLt(FNeg(w2.e), w2.v) THEN w2.e ELSE Zero) ELSE w2
  IN  [z |-> z, p |-> p, mm |-> Q(mm, Rel (.) mm), dp_dd |-> dpdd,
       d2p_dd2 |-> IF pos THEN QScale(rt (/) d, QAdd(QAdd(QScale(Two, r.a01), QScale(F("4"), r.a02)), r.a03)) ELSE QExact(Zero),
       d2p_dtd |-> QScale(R, QSub(k2, QAdd(QScale(Two, r.a11), r.a12))),
       dp_dt |-> QScale(d, dpdt1),
       u |-> u, h |-> h, s |-> s, g |-> g, cv |-> cv, cp |-> cp, w |-> w,
       kappa |-> QDiv(QScale(mm (/) (F("1000") (.) rt), w2p), z),
       jt |-> IF pos THEN QScale(One (/) d, QDiv(QSub(QDiv(QScale(t, dpdt1), dpdd), one), cp)) ELSE QExact(F("1e20"))]
=============================================================================
