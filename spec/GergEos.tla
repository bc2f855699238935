------------------------------ MODULE GergEos ------------------------------
(* The GERG-2008 equation of state: Kunz and Wagner, J. Chem. Eng. Data 57 (2012) 3032; AGA Report No. 8, Part 2.

   Everything is a function of composition x (a sequence of 21 numbers), temperature t [K] and density d [mol/l].
   Components of mole fraction 1e-15 or less count as absent.                                                    *)
EXTENDS F64, Components, Helmholtz, GergData

RG == F(RGERGs)
GMass == FDecVec(MMGs)
TCrit(i) == F(TCs[i])
DCrit(i) == F(DCs[i])
LOCAL DC == FDecVec(DCs)
LOCAL TC == FDecVec(TCs)
LOCAL NOIK == FVec([i \in 1..NC |-> FDecVec(NOIKs[i])])
LOCAL TOIK == FVec([i \in 1..NC |-> FDecVec(TOIKs[i])])
LOCAL NIJK == FVec([m \in 1..10 |-> FDecVec(NIJKs[m])])
LOCAL TIJK == FVec([m \in 1..10 |-> FDecVec(TIJKs[m])])
LOCAL ETA == FVec([m \in 1..10 |-> FDecVec(ETAs[m])])
LOCAL EPS == FVec([m \in 1..10 |-> FDecVec(EPSs[m])])
LOCAL BETA == FVec([m \in 1..10 |-> FDecVec(BETAs[m])])
LOCAL GAM == FVec([m \in 1..10 |-> FDecVec(GAMs[m])])

\* Reducing parameters of the pair i < j, in the order of REDs: (1,2), (1,3), ..., (20,21).
LOCAL PairIndex(i, j) == (i - 1) * NC - (i * (i - 1)) \div 2 + (j - i)
ASSUME \A i \in 1..NC : \A j \in i+1..NC : REDs[PairIndex(i, j)][1] = i /\ REDs[PairIndex(i, j)][2] = j
LOCAL RED == FVec([k \in 1..Len(REDs) |-> FDecVec(SubSeq(REDs[k], 3, 6))])
LOCAL DEP == FVec([k \in 1..Len(DEPARTs) |-> [i |-> DEPARTs[k][1], j |-> DEPARTs[k][2], m |-> DEPARTs[k][3], f |-> F(DEPARTs[k][4])]])

LOCAL Third == One (/) F("3")
LOCAL VC3 == FVec([i \in 1..NC |-> FPow(One (/) DC[i], Third)])

Present(x) == SelectSeq([i \in 1..NC |-> i], LAMBDA i : FLt(Eps, x[i]))

\* Reducing density and temperature.
Reducing(x) ==
  LET s == Present(x)
      m == Len(s)
      Sum(pure(_), pair(_, _, _), beta) ==
        FSum([a \in 1..m |-> (x[s[a]] (.) x[s[a]] (.) pure(s[a])) (+)
          FSum([b \in a+1..m |->
            LET i == s[a]
                j == s[b]
                r == RED[PairIndex(i, j)]
                bt == r[beta] (.) r[beta]
            IN  Two (.) x[i] (.) x[j] (.) r[beta] (.) pair(i, j, r)
                  (.) ((x[i] (+) x[j]) (/) ((bt (.) x[i]) (+) x[j]))])])
      v == Sum(LAMBDA i : One (/) DC[i],
               LAMBDA i, j, r : r[2] (.) F("0.125") (.) FPowI(VC3[i] (+) VC3[j], 3), 1)
      t == Sum(LAMBDA i : TC[i], LAMBDA i, j, r : r[4] (.) FSqrt(TC[i] (.) TC[j]), 3)
  IN  [d |-> One (/) v, t |-> t]

\* Density whose inverse is the mean critical volume; the density search starts from multiples of it.
PseudoCriticalDensity(x) ==
  LET v == FSum([i \in 1..NC |-> x[i] (/) DC[i]]) IN IF FLt(Eps, v) THEN One (/) v ELSE Zero

(* What depends on composition and temperature only: the reduced density per unit density, and the terms without
   their density factors. *)
GTerms(x, t) ==
  LET red == Reducing(x)
      tau == red.t (/) t
      lt  == FLn(tau)
      s   == Present(x)
      Pure(i) == FVec([k \in 1..(KPOL[i] + KEXP[i]) |->
                   [f |-> x[i] (.) NOIK[i][k] (.) FExp(TOIK[i][k] (.) lt), u |-> TOIK[i][k], k |-> DOIK[i][k],
                    c |-> IF k > KPOL[i] THEN COIK[i][k] ELSE 0, m |-> 0, n |-> 0]])
      dep == SelectSeq(DEP, LAMBDA r : FLt(Eps, x[r.i]) /\ FLt(Eps, x[r.j]))
      Mix(r) == FVec([k \in 1..(KPOLIJ[r.m] + KEXPIJ[r.m]) |->
                   [f |-> x[r.i] (.) x[r.j] (.) r.f (.) NIJK[r.m][k] (.) FExp(TIJK[r.m][k] (.) lt), u |-> TIJK[r.m][k],
                    k |-> DIJK[r.m][k], c |-> 0, m |-> IF k > KPOLIJ[r.m] THEN r.m ELSE 0, n |-> k]])
      RECURSIVE Cat(_, _, _)
      Cat(Op(_), q, n) == IF n = 0 THEN << >> ELSE Cat(Op, q, n - 1) \o Op(q[n])
  IN  [dr |-> red.d, list |-> Cat(Pure, s, Len(s)) \o Cat(Mix, dep, Len(dep))]

\* The terms of the residual Helmholtz energy at density d; c = GTerms(x, t).
GResTerms(c, d) ==
  LET del == d (/) c.dr
      pw  == FVec([k \in 1..7 |-> FPowI(del, k)])
      ex  == FVec([k \in 1..7 |-> FExp(FNeg(pw[k]))])
      Term(r) ==
        IF r.m = 0
        THEN PolyExp(IF r.c = 0 THEN r.f (.) pw[r.k] ELSE r.f (.) pw[r.k] (.) ex[r.c], r.u, r.k, r.c, IF r.c = 0 THEN One ELSE pw[r.c])
        ELSE LET eta == ETA[r.m][r.n]
                 eps == EPS[r.m][r.n]
                 bet == BETA[r.m][r.n]
                 gam == GAM[r.m][r.n]
                 q   == del (-) eps
                 e2  == Two (.) eta (.) pw[2]
             IN  [f |-> r.f (.) pw[r.k] (.) FExp(FNeg((eta (.) q (.) q) (+) (bet (.) (del (-) gam)))), u |-> r.u,
                  b1 |-> FI(r.k) (-) (Two (.) eta (.) del (.) q) (-) (bet (.) del),
                  l2 |-> FI(-r.k) (-) e2, l3 |-> FI(2 * r.k),
                  mb |-> FI(r.k) (+) (Two (.) eta (.) del (.) (del (+) eps)) (+) (bet (.) del),
                  m2 |-> FI(r.k) (+) e2, m3 |-> FI(2 * r.k)]
  IN  FVec([n \in 1..Len(c.list) |-> Term(c.list[n])])

\* Ideal gas: the coefficients refer to the gas constant RSTAR and the reference temperature 298.15 K.
LOCAL N0 == FVec([i \in 1..NC |-> FDecVec(N0Gs[i])])
LOCAL TH == FVec([i \in 1..NC |-> FDecVec(TH0Gs[i])])
LOCAL T0 == F("298.15")
LOCAL Rsr == F(RSTARs) (/) RG
LOCAL LnD0 == FLn((F("101.325") (/) RG) (/) T0)
GIdeal(x, t, d) ==
  Ideal(x, t, d, Eps, LAMBDA i : (Rsr (.) N0[i][1]) (-) LnD0, LAMBDA i : (Rsr (.) (N0[i][2] (+) T0)) (-) T0,
        LAMBDA i : Rsr (.) (N0[i][3] (-) One), LAMBDA i, k : Rsr (.) N0[i][k + 3], LAMBDA i, k : TH[i][k])

GMolarMass(x) == FSum([i \in 1..NC |-> x[i] (.) GMass[i]])
GProperties(x, t, d) == PropertiesOf(RG, GMolarMass(x), t, d, Residual(GResTerms(GTerms(x, t), d)), GIdeal(x, t, d))
=============================================================================
