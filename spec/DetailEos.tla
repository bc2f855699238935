----------------------------- MODULE DetailEos -----------------------------
(* The AGA8 DETAIL equation of state: AGA Report No. 8, Part 1, Third Edition (2017).

   Everything is a function of composition x (a sequence of 21 numbers), temperature t [K] and density d [mol/l]. *)
EXTENDS F64, Components, Helmholtz, DetailData

RD == F(RDETAILs)
DMass == FDecVec(MMIs)

LOCAL AN == FDecVec(ANs)
LOCAL UN == FDecVec(UNs)
LOCAL EI == FDecVec(EIs)
LOCAL KI == FDecVec(KIs)
LOCAL GI == FDecVec(GIs)
LOCAL QI == FDecVec(QIs)
LOCAL FHi == FDecVec(FHis)
LOCAL SI == FDecVec(SIs)
LOCAL WI == FDecVec(WIs)

\* A table of the pairs i < j that lists only the entries different from 1.
LOCAL PairTable(list) ==
  FVec([i \in 1..NC |-> FVec([j \in 1..NC |->
     LET hit == {k \in 1..Len(list) : list[k][1] = i /\ list[k][2] = j}
     IN  IF hit = {} THEN One ELSE F(list[CHOOSE k \in hit : TRUE][3])])])
LOCAL EIJ == PairTable(EIJs)
LOCAL UIJ == PairTable(UIJs)
LOCAL KIJ == PairTable(KIJs)
LOCAL GIJ == PairTable(GIJs)

LOCAL K25 == FVec([i \in 1..NC |-> FPow(KI[i], F("2.5"))])
LOCAL E25 == FVec([i \in 1..NC |-> FPow(EI[i], F("2.5"))])

\* Mixture corrections of the size, energy and orientation parameters.
LOCAL KM == FVec([i \in 1..NC |-> FVec([j \in 1..NC |-> (FPowI(KIJ[i][j], 5) (-) One) (.) K25[i] (.) K25[j]])])
LOCAL UM == FVec([i \in 1..NC |-> FVec([j \in 1..NC |-> (FPowI(UIJ[i][j], 5) (-) One) (.) E25[i] (.) E25[j]])])
LOCAL GM == FVec([i \in 1..NC |-> FVec([j \in 1..NC |-> (GIJ[i][j] (-) One) (.) ((GI[i] (+) GI[j]) (/) Two)])])

\* Coefficients of the mixture second virial coefficient: term n of pair i, j (including the binary coefficient
\* B*_nij with its orientation, quadrupole, high temperature, dipole and association factors).
LOCAL BStar(n, i, j) ==
  LET g == IF GN[n] = 1 THEN GIJ[i][j] (.) ((GI[i] (+) GI[j]) (/) Two) ELSE One
      q == IF QN[n] = 1 THEN QI[i] (.) QI[j] ELSE One
      f == IF FN[n] = 1 THEN FHi[i] (.) FHi[j] ELSE One
      s == IF SN[n] = 1 THEN SI[i] (.) SI[j] ELSE One
      w == IF WN[n] = 1 THEN WI[i] (.) WI[j] ELSE One
  IN  g (.) q (.) f (.) s (.) w
LOCAL BC == FVec([i \in 1..NC |-> FVec([j \in 1..NC |-> FVec([n \in 1..18 |->
     AN[n] (.) FPow(EIJ[i][j] (.) FSqrt(EI[i] (.) EI[j]), UN[n]) (.) FPow(KI[i] (.) KI[j], F("1.5")) (.) BStar(n, i, j)])])])

(* Terms that depend on composition only. *)
DTerms(x) ==
  LET s == SelectSeq([i \in 1..NC |-> i], LAMBDA i : FLt(Zero, x[i]))
      m == Len(s)
      Sum1(Op(_)) == FSum([a \in 1..m |-> Op(s[a])])
      Sum2(Op(_, _)) == FSum([a \in 1..m |-> FSum([b \in a+1..m |-> Two (.) x[s[a]] (.) x[s[b]] (.) Op(s[a], s[b])])])
      k1 == Sum1(LAMBDA i : x[i] (.) K25[i])
      u1 == Sum1(LAMBDA i : x[i] (.) E25[i])
      k3 == FPow((k1 (.) k1) (+) Sum2(LAMBDA i, j : KM[i][j]), F("0.6"))       \* cube of the size parameter
      u  == FPow((u1 (.) u1) (+) Sum2(LAMBDA i, j : UM[i][j]), F("0.2"))       \* energy parameter
      g  == Sum1(LAMBDA i : x[i] (.) GI[i]) (+) Sum2(LAMBDA i, j : GM[i][j])   \* orientation parameter
      q  == Sum1(LAMBDA i : x[i] (.) QI[i])                                    \* quadrupole parameter
      f  == Sum1(LAMBDA i : x[i] (.) x[i] (.) FHi[i])                          \* high temperature parameter
  IN  [k3 |-> k3,
       bs |-> FVec([n \in 1..18 |-> Sum1(LAMBDA i : x[i] (.) x[i] (.) BC[i][i][n]) (+) Sum2(LAMBDA i, j : BC[i][j][n])]),
       cs |-> FVec([n \in 1..58 |-> IF n <= 12 THEN Zero ELSE
               AN[n] (.) FPow(u, UN[n]) (.) (IF GN[n] = 1 THEN g ELSE One) (.) (IF QN[n] = 1 THEN q (.) q ELSE One)
                     (.) (IF FN[n] = 1 THEN f ELSE One)])]

(* The terms of the residual Helmholtz energy at temperature t and density d; c = DTerms(x). *)
DResTerms(c, t, d) ==
  LET red == c.k3 (.) d
      pw  == FVec([k \in 1..9 |-> FPowI(red, k)])
      Pw(k) == IF k = 0 THEN One ELSE pw[k]
      tu  == FVec([n \in 1..58 |-> FPow(t, FNeg(UN[n]))])
  IN  FVec([n \in 1..18 |-> PolyExp(c.bs[n] (.) d (.) tu[n], UN[n], 1, 0, One)])                                  \* second virial
      \o FVec([n \in 1..6 |-> PolyExp(FNeg(c.cs[n + 12] (.) red (.) tu[n + 12]), UN[n + 12], 1, 0, One)])
      \o FVec([n \in 1..46 |-> LET m == n + 12
                                   e == IF KN[m] = 0 THEN One ELSE FExp(FNeg(Pw(KN[m])))
                               IN  PolyExp(c.cs[m] (.) Pw(BN[m]) (.) tu[m] (.) e, UN[m], BN[m], KN[m], Pw(KN[m]))])

LOCAL N0 == FVec([i \in 1..NC |-> FDecVec(N0Is[i])])
LOCAL TH == FVec([i \in 1..NC |-> FDecVec(TH0Is[i])])
LOCAL LnD0 == FLn((F("101.325") (/) RD) (/) F("298.15"))
DIdeal(x, t, d) ==
  Ideal(x, t, d, Zero, LAMBDA i : N0[i][1] (-) LnD0, LAMBDA i : N0[i][2], LAMBDA i : N0[i][3] (-) One,
        LAMBDA i, k : N0[i][k + 3], LAMBDA i, k : TH[i][k])

DMolarMass(x) == FSum([i \in 1..NC |-> x[i] (.) DMass[i]])
DProperties(x, t, d) == PropertiesOf(RD, DMolarMass(x), t, d, Residual(DResTerms(DTerms(x), t, d)), DIdeal(x, t, d))
=============================================================================
