-------------------------------- MODULE Gen --------------------------------
(* Inputs for the implementation: for property $PROP, the scenarios (sequences of operations) whose recorded execution
   CalcTrace judges.  All choices are functions of $SEED; $SCALE (percent) multiplies the number of random scenarios.

   A scenario is [id, flags, ops]; an operation is a sequence of words (see harness/src/main.rs).  Flag C: the
   scenario is also executed through the C interface.                                                            *)
EXTENDS F64, Components, Interface, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, GergData

Prop == IOEnv.PROP
Seed == IntOf(IOEnv.SEED)
Scale == IntOf(IOEnv.SCALE)
Count(m) == LET r == (m * Scale) \div 100 IN IF r < 1 THEN 1 ELSE r
Key(a, b) == RndMix(RndMix(Seed, a), b)           \* the seed of random choice b of group a

Bi(v) == FBits(v)
Pick(sd, k, list) == list[1 + Rnd(sd, k, Len(list))]
Uni(sd, k, lo, hi) == F(lo) (+) (FRnd(sd, k) (.) (F(hi) (-) F(lo)))
Log(sd, k, lo, hi) == FExp(FLn(F(lo)) (+) (FRnd(sd, k) (.) (FLn(F(hi)) (-) FLn(F(lo)))))
Nan == Zero (/) Zero
Inf == One (/) Zero

RECURSIVE Cat(_)
Cat(q) == IF Len(q) = 0 THEN << >> ELSE IF Len(q) = 1 THEN q[1]
          ELSE LET mid == Len(q) \div 2 IN Cat(SubSeq(q, 1, mid)) \o Cat(SubSeq(q, mid + 1, Len(q)))
Tup(n, Op(_)) == [i \in 1..n |-> Op(i)]
CatN(n, Op(_)) == Cat([i \in 1..n |-> Op(i)])

(* ------------------------------------------------ compositions ------------------------------------------------ *)
Pure(i) == FVec([j \in 1..NC |-> IF j = i THEN One ELSE Zero])
Pair(i, j, w) == FVec([m \in 1..NC |-> IF m = i THEN w ELSE IF m = j THEN One (-) w ELSE Zero])
Scaled(x, total) == LET r == total (/) FSum(x) IN FVec([i \in 1..NC |-> x[i] (.) r])
\* natural gas within the limits of Contract!NaturalGas
NatLimit == <<"0", "0.05", "0.03", "0.06", "0.015", "0.002", "0.002", "0.002", "0.002", "0.0002", "0.0002", "0.0002",
              "0.0002", "0.0002", "0.001", "0.001", "0.001", "0.001", "0.001", "0.001", "0.001">>
\* methane with two components near their limits, and perhaps little of the others
NatPair(sd, i, j) ==
  LET little == Pick(sd, 1, <<"0", "0", "0.1", "0.01">>)
      raw == FVec([n \in 1..NC |-> IF n = 1 THEN Zero ELSE F(NatLimit[n]) (.) (IF n \in {i, j} THEN Uni(sd, n, "0.85", "0.9999") ELSE F(little) (.) FRnd(sd, 50 + n))])
  IN  FVec([n \in 1..NC |-> IF n = 1 THEN One (-) FSum(raw) ELSE raw[n]])
NatGas(sd) ==
  LET few == Rnd(sd, 99, 3) = 0
      corner == Rnd(sd, 98, 4) = 0          \* most fractions at a limit
      frac(i) == IF few /\ Rnd(sd, 200 + i, 2) = 0 THEN Zero
                 ELSE IF corner /\ Rnd(sd, 230 + i, 4) > 0 THEN (IF Rnd(sd, 260 + i, 2) = 0 THEN Zero ELSE One) ELSE FRnd(sd, 100 + i)
      lim(i) == F(NatLimit[i])
      raw == FVec([i \in 1..NC |-> IF i = 1 THEN Zero ELSE lim(i) (.) frac(i) (.) F("0.9999")])
  IN  FVec([i \in 1..NC |-> IF i = 1 THEN One (-) FSum(raw) ELSE raw[i]])
\* mixture of a random subset, fractions over pw decades
Mix(sd, total) ==
  LET m == 2 + Rnd(sd, 1, 20)
      pw == Pick(sd, 2, <<"1", "1", "3", "30">>)
      raw == FVec([i \in 1..NC |-> IF Rnd(sd, 30 + i, 21) < m THEN FPow(FRnd(sd, 60 + i), F(pw)) ELSE Zero])
      tot == FSum(raw)
  IN  IF FLt(F("1e-3"), tot) THEN Scaled(raw, total) ELSE Pair(1 + Rnd(sd, 3, 10), 11 + Rnd(sd, 4, 11), FRnd(sd, 5))
Comp(sd) ==
  CASE Rnd(sd, 0, 10) = 0 -> Pure(1 + Rnd(sd, 6, NC))
    [] Rnd(sd, 0, 10) \in 1..2 -> LET i == 1 + Rnd(sd, 6, 20) IN Pair(i, i + 1 + Rnd(sd, 7, NC - i), FRnd(sd, 8))
    [] Rnd(sd, 0, 10) \in 3..4 -> NatGas(sd)
    [] Rnd(sd, 0, 10) \in 5..8 -> Mix(sd, One)
    [] OTHER -> Mix(sd, Uni(sd, 9, "0.9905", "1.0095"))

(* ------------------------------------------------ operations ------------------------------------------------ *)
New(h, k) == <<"new", h, k>>
SetX(h, x) == <<"setx", h>> \o [i \in 1..NC |-> Bi(x[i])]
Raw(h, nm, v) == <<"raw", h, nm, Bi(v)>>
Pressure(h) == <<"pressure", h>>
Props(h) == <<"props", h>>
MM(h) == <<"mm", h>>
Density(h, mode) == <<"density", h, mode>>
Scale1(h, nm, v) == <<"scale", h, nm, Bi(v)>>
Note(h, a) == <<"note", h>> \o a
Scn(nm, j, flags, ops) == [id |-> nm \o ToString(j), flags |-> flags, ops |-> ops]

Temp(sd, k) == CASE Rnd(sd, k, 8) \in 0..3 -> Uni(sd, k + 1000, "200", "450")
                 [] Rnd(sd, k, 8) \in 4..5 -> Log(sd, k + 1000, "60", "2000")
                 [] Rnd(sd, k, 8) = 6 -> Uni(sd, k + 1000, "60", "200")
                 [] OTHER -> F(Pick(sd, k + 1000, <<"60", "90.7", "273.15", "288.15", "298.15", "300", "647.096", "1000", "2000">>))
Dens(sd, k) == CASE Rnd(sd, k, 8) \in 0..3 -> Uni(sd, k + 1000, "0", "20")
                 [] Rnd(sd, k, 8) = 4 -> Uni(sd, k + 1000, "20", "40")
                 [] Rnd(sd, k, 8) \in 5..6 -> Log(sd, k + 1000, "1e-6", "10")
                 [] OTHER -> F(Pick(sd, k + 1000, <<"1e-12", "1e-3", "1", "5", "10", "15", "30", "40">>))
PairList == Cat([i \in 1..20 |-> [j \in 1..(NC - i) |-> <<i, i + j>>]])

(* ---------------------------------------------- states and histories ---------------------------------------------- *)
SolveTemp(sd, k) == CASE Rnd(sd, k, 6) \in 0..2 -> Uni(sd, k + 1000, "90", "400")
                      [] Rnd(sd, k, 6) \in 3..4 -> Uni(sd, k + 1000, "200", "700")
                      [] OTHER -> F(Pick(sd, k + 1000, <<"90", "120", "150", "190.6", "220", "250", "300", "305.3", "369.8", "425", "450", "500", "600", "647", "700">>))
SolveP(sd, k) == CASE Rnd(sd, k, 6) \in 0..2 -> Log(sd, k + 1000, "1e-3", "200000")
                   [] Rnd(sd, k, 6) \in 3..4 -> Uni(sd, k + 1000, "100", "20000")
                   [] OTHER -> F(Pick(sd, k + 1000, <<"0.01", "1", "101.325", "500", "2000", "4599", "5000", "7000", "10000", "20000", "50000", "100000", "200000">>))
SolveComp(sd, i) == IF i <= NC THEN Pure(i) ELSE Comp(sd)
\* density, pressure and properties at n states of one calculator; a(i): operations before the i-th
SolveChain(nm, j, k, flags, n, x(_), sd, mode(_), before(_)) ==
  Scn(nm, j, flags, <<New("1", k)>> \o CatN(n, LAMBDA i :
    <<SetX("1", x(i)), Raw("1", "t", SolveTemp(sd, i)), Raw("1", "p", SolveP(sd, i + 3000))>>
    \o before(i) \o <<Density("1", mode(i)), Pressure("1")>>))
Deltas == <<"1e-3", "1e-6", "9e-8", "1e-8", "1e-9", "1e-10", "1e-12", "1e-14", "2e-16">>
\* composition near y: some weight moved between two components
Shifted(y, sd) ==
  LET i == 1 + Rnd(sd, 1, NC)
      j == 1 + ((i + Rnd(sd, 2, NC - 1)) % NC)
      dl == F(Pick(sd, 3, Deltas))
  IN  CASE Rnd(sd, 4, 4) = 0 -> FVec([m \in 1..NC |-> IF m = i THEN y[m] (+) dl ELSE y[m]])
        [] Rnd(sd, 4, 4) = 1 -> FVec([m \in 1..NC |-> IF m = i THEN y[j] ELSE IF m = j THEN y[i] ELSE y[m]])     \* exchanged
        [] OTHER -> FVec([m \in 1..NC |-> IF m = i THEN y[m] (+) dl ELSE IF m = j /\ FLt(dl, y[m]) THEN y[m] (-) dl ELSE y[m]])
(* States near saturation, from corresponding states: <<temperature, pressure>> for composition x. *)
CritT == FDecVec(TCs)
CritD == FDecVec(DCs)
LiquidDensity(x) == LET v == FSum([i \in 1..NC |-> x[i] (/) CritD[i]]) IN F("2.5") (/) v
NearSat(sd, x) ==
  LET tc == FSum([i \in 1..NC |-> x[i] (.) CritT[i]])
      v  == FSum([i \in 1..NC |-> x[i] (/) CritD[i]])
      pc == (F("0.28") (.) F("8.314472") (.) tc) (/) v
      tr == IF Rnd(sd, 0, 4) = 0 THEN Uni(sd, 1, "0.97", "1.05") ELSE Uni(sd, 1, "0.45", "0.99")
      t  == FMax(tr (.) tc, F("60"))
      ps == pc (.) FExp(F("6.2") (.) (One (-) (tc (/) t)))
      p  == ps (.) Log(sd, 2, "0.2", "5")
  IN  <<t, FMax(p, F("1e-5"))>>
\* pure with or without traces, or a few components
SatComp(sd) ==
  CASE Rnd(sd, 0, 4) \in 0..1 -> Pure(1 + Rnd(sd, 1, NC))
    [] Rnd(sd, 0, 4) = 2 -> LET i == 1 + Rnd(sd, 1, NC) IN Pair(i, 1 + ((i + Rnd(sd, 2, NC - 1)) % NC), One (-) Log(sd, 3, "1e-8", "0.5"))
    [] OTHER -> Comp(RndMix(sd, 4))
SatState(h, sd, x) == LET q == NearSat(sd, x) IN <<Raw(h, "t", q[1]), Raw(h, "p", q[2])>>

(* All words of a given length over an alphabet of compound operations (de Bruijn sequence, Fredricksen and Maiorana),
   cut into scenarios that overlap: whatever two or three operations in a row do, whichever inputs changed between
   them, some scenario does it.                                                                                   *)
Passes(m) == Count(m)
RECURSIVE Lyndon(_, _, _, _)
Lyndon(n, k, t, q) ==            \* q: <<a, p>>: prefix a (a function on 0..n), period p
  LET a == q[1]
      p == q[2]
      one(j, pp) == Lyndon(n, k, t + 1, <<[a EXCEPT ![t] = j], pp>>)
  IN  IF t > n THEN (IF n % p = 0 THEN [i \in 1..p |-> a[i]] ELSE << >>)
      ELSE Cat([j \in 1..(k - a[t - p]) |-> LET v == a[t - p] + j - 1 IN one(v, IF j = 1 THEN p ELSE t)])
DeBruijn(n, k) == Lyndon(n, k, 1, <<[i \in 0..n |-> 0], 1>>)
Rotated(q, r) == LET n == Len(q) IN [i \in 1..n |-> q[1 + ((i - 1 + r) % n)]]

NSym == 20
WordOp(k, sd, c, n, s) ==        \* the n-th symbol of chunk c is s
  LET near == Rnd(sd, 1, 2) = 0
      liquidT == Rnd(sd, 15, 3) = 0
      ya == SatComp(RndMix(sd, 2))
      yb == SatComp(RndMix(sd, 3))
      yc == LET i == 1 + Rnd(sd, 4, NC) IN
            CASE Rnd(sd, 5, 3) = 0 -> Shifted(ya, RndMix(sd, 6))
              [] Rnd(sd, 5, 3) = 1 -> FVec([m \in 1..NC |-> IF m = i THEN Zero ELSE IF FLt(Zero, ya[i]) /\ FEq(ya[i], One) /\ m = 1 + (i % NC) THEN One ELSE ya[m]])
              [] OTHER -> LET j == 1 + (i % NC) IN FVec([m \in 1..NC |-> IF m = i THEN ya[j] ELSE IF m = j THEN ya[i] ELSE ya[m]])
      sat == NearSat(RndMix(sd, 7), ya)
      ta == IF liquidT THEN sat[1] ELSE Uni(sd, 8, "150", "450")
      tb == IF near THEN ta (.) (One (+) F(Pick(sd, 9, <<"1e-3", "1e-6", "9e-8", "1e-9", "1e-12">>))) ELSE Uni(sd, 10, "90", "700")
      p1 == IF liquidT THEN sat[2] (.) F("0.5") ELSE Log(sd, 11, "1", "20000")
      p2 == IF liquidT THEN sat[2] (.) F("20") ELSE Log(sd, 12, "1", "100000")
      dens == LET m == IF k = "D" THEN "0" ELSE IF s = 10 THEN Pick(RndMix(sd, n), 1, <<"1", "2">>) ELSE "0" IN <<Density("1", m)>>
  IN  CASE s = 0 -> <<Raw("1", "t", ta), Pressure("1")>>
        [] s = 1 -> <<Raw("1", "t", tb), Pressure("1")>>
        [] s = 2 -> <<Raw("1", "t", ta), Props("1")>>
        [] s = 3 -> <<Raw("1", "t", tb), Props("1")>>
        [] s = 4 -> <<SetX("1", ya), Pressure("1")>>
        [] s = 5 -> <<SetX("1", yb), Pressure("1")>>
        [] s = 6 -> <<SetX("1", yb), Props("1")>>
        [] s = 7 -> <<SetX("1", yc), Props("1")>>
        [] s = 8 -> <<Raw("1", "p", p1)>> \o dens
        [] s = 9 -> <<Raw("1", "p", p2), Raw("1", "d", FNeg(LiquidDensity(ya)))>> \o dens
        [] s = 10 -> <<Raw("1", "t", ta), Raw("1", "p", p2)>> \o dens
        [] s = 11 -> <<SetX("1", ya), MM("1")>>
        [] s = 12 -> <<Raw("1", "d", Zero), Props("1")>>
        [] s = 13 -> <<Raw("1", "d", Uni(sd, 13, "0.1", "15")), Pressure("1")>>
        [] s = 14 -> <<Raw("1", "t", tb), SetX("1", yc), Raw("1", "p", p1)>> \o dens
        [] s = 15 -> <<SetX("1", ya), Props("1")>>
        [] s = 16 -> <<Pressure("1")>>
        [] s = 17 -> <<Scale1("1", "d", FNeg(One (+) F(Pick(sd, 16, <<"1e-2", "1e-3", "-1e-4", "1e-5", "1e-6", "-1e-7", "1e-9", "0", "1e-12">>))))>> \o dens
        [] s = 18 -> <<Raw("1", "p", p1), Raw("1", "d", F(Pick(sd, 17, <<"0", "-0.0", "1e-16", "5", "30">>)))>> \o dens
        [] OTHER -> <<Props("1")>>
Words(nm, k, flags, order, chunk, g, passes) ==
  LET word == Rotated(DeBruijn(order, NSym), Rnd(Seed, g, 1000))
      total == Len(word)
      chunks == ((total + chunk) - 1) \div chunk
  IN  Tup(chunks * passes, LAMBDA cc :
        LET c == ((cc - 1) % chunks) + 1
            sd == Key(g, cc)
            lo == (c - 1) * chunk
        IN  Scn(nm \o k \o "-", cc, flags,
              <<New("1", k)>> \o WordOp(k, sd, c, 0, 4) \o WordOp(k, sd, c, 0, 2)
              \o CatN(chunk + order - 1, LAMBDA i : WordOp(k, sd, c, i, word[1 + ((lo + i - 1) % total)]))))

\* Pressure after every density calculation.
Probed(list) == [i \in 1..Len(list) |-> [list[i] EXCEPT !.ops =
                   CatN(Len(list[i].ops), LAMBDA n : IF list[i].ops[n][1] = "density" THEN <<list[i].ops[n], Pressure("1")>> ELSE <<list[i].ops[n]>>)]]

\* n states near saturation on one calculator; ds: from which density; modes of GERG.
SatChain(nm, j, k, flags, n, sd, ds(_, _), mode(_)) ==
  Scn(nm \o k \o "-", j, flags, <<New("1", k)>> \o CatN(n, LAMBDA i :
    LET x == SatComp(RndMix(sd, i)) IN
    <<SetX("1", x)>> \o SatState("1", RndMix(sd, i + 100), x) \o ds(i, x) \o <<Density("1", mode(i))>>))

\* The density that was found, or one near it, as the start of the next calculation at the same or a slightly different state.
NearRoot(nm, j, k, flags, sd) ==
  LET x == IF Rnd(sd, 1, 2) = 0 THEN SatComp(RndMix(sd, 2)) ELSE SolveComp(RndMix(sd, 2), 100)
      st == IF Rnd(sd, 3, 2) = 0 THEN NearSat(RndMix(sd, 4), x) ELSE <<SolveTemp(sd, 5), SolveP(sd, 6)>>
      off(i) == F(Pick(sd, i + 10, <<"1e-2", "-1e-2", "1e-3", "-1e-3", "9e-4", "1e-4", "-1e-4", "1e-5", "1e-6", "1e-7", "1e-8", "-1e-9", "1e-12", "0">>))
  IN  Scn(nm \o k \o "-", j, flags, <<New("1", k), SetX("1", x), Raw("1", "t", st[1]), Raw("1", "p", st[2]), Density("1", "0")>>
        \o CatN(5, LAMBDA i : (CASE Rnd(sd, i + 30, 4) = 0 -> <<Scale1("1", "p", One (+) off(i + 40))>>
                                 [] Rnd(sd, i + 30, 4) = 1 -> <<Scale1("1", "t", One (+) off(i + 40))>> [] OTHER -> << >>)
             \o <<Scale1("1", "d", FNeg(One (+) off(i)))>>
             \o (CASE Rnd(sd, i + 20, 4) = 0 -> <<Pressure("1")>> [] Rnd(sd, i + 20, 4) = 1 -> <<Props("1")>> [] OTHER -> << >>)
             \o <<Density("1", IF k = "G" /\ Rnd(sd, i + 50, 5) = 0 THEN "1" ELSE "0")>>))
(* ------------------------------------------------ equations of state ------------------------------------------------ *)
\* A chain of calculations on one calculator, over a list of compositions (a function of 1..n).
EosChain(nm, j, k, n, x(_), sd, onlyprops) ==
  Scn(nm, j, "", <<New("1", k)>> \o CatN(n, LAMBDA i :
    LET p1 == IF onlyprops \/ Rnd(sd, i, 2) = 0 THEN Props("1") ELSE Pressure("1")
        p2 == IF onlyprops \/ Rnd(sd, i + 500, 2) = 0 THEN Props("1") ELSE Pressure("1")
    IN  <<SetX("1", x(i)), Raw("1", "t", Temp(sd, i)), Raw("1", "d", Dens(sd, i + 3000)), p1>>
        \o (CASE Rnd(sd, i + 9000, 4) = 0 -> <<Raw("1", "d", Dens(sd, i + 5000)), p2>>
              [] Rnd(sd, i + 9000, 4) = 1 -> <<Raw("1", "t", Temp(sd, i + 7000)), p2>>
              [] Rnd(sd, i + 9000, 4) = 2 -> <<p2>>
              [] OTHER -> << >>)))
(* Every component alone, as a main component and as a trace, in every combination of a range of temperature and a range
   of density.                                                                                                      *)
TempRanges == <<<<"60", "90">>, <<"90", "150">>, <<"150", "300">>, <<"300", "700">>, <<"700", "1200">>, <<"1200", "2000">>>>
DensRanges == <<<<"1e-9", "1e-3">>, <<"1e-3", "1">>, <<"1", "8">>, <<"8", "18">>, <<"18", "28">>, <<"28", "40">>>>
GridComp(i, kind, sd) ==
  LET j == 1 + ((i + Rnd(sd, 1, NC - 1)) % NC)
      y == IF Rnd(sd, 2, 2) = 0 THEN Pure(j) ELSE NatGas(RndMix(sd, 3))
      w == Log(sd, 4, "1e-12", "1e-3")
  IN  CASE kind = 1 -> Pure(i)
        [] kind = 2 -> Pair(i, j, Uni(sd, 5, "0.1", "0.95"))
        [] OTHER -> FVec([m \in 1..NC |-> IF m = i THEN w ELSE y[m] (.) (One (-) w)])
GridState(sd, n, calc(_)) ==
  LET q == (Pick(sd, 1, <<1, 5, 7, 11, 13, 17>>) * (n + Rnd(sd, 2, 36))) % 36
      a == TempRanges[1 + (q % 6)]
      b == DensRanges[1 + (q \div 6)]
  IN  <<Raw("1", "t", Uni(sd, n + 100, a[1], a[2])), Raw("1", "d", Log(sd, n + 200, b[1], b[2]))>> \o calc(n)
Grid(k, g, every, calc(_)) ==
  Tup(NC * 3, LAMBDA c : LET i == 1 + (c % NC)
                             sd == Key(g, c) IN
    Scn("grid-" \o k \o "-", c, "", <<New("1", k), SetX("1", GridComp(i, 1 + ((c - 1) \div NC), RndMix(sd, 1)))>>
                                   \o CatN(36 \div every, LAMBDA n : GridState(sd, n, calc))))
\* The same for densities from temperature and pressure; kinds: how many of the three kinds of composition.
SolveTemps == <<<<"50", "100">>, <<"100", "180">>, <<"180", "300">>, <<"300", "500">>, <<"500", "1000">>, <<"1000", "3000">>>>
SolvePs == <<<<"1e-14", "1e-3">>, <<"1e-3", "10">>, <<"10", "1000">>, <<"1000", "10000">>, <<"10000", "100000">>, <<"100000", "1e7">>>>
SolveGrid(k, g, kinds, flags, mode(_), before(_)) ==
  Tup(NC * kinds, LAMBDA c : LET i == 1 + (c % NC)
                                 sd == Key(g, c)
                                 step == Pick(sd, 2, <<1, 5, 7, 11, 13, 17>>) IN
    Scn("grid-" \o k \o "-", c, flags, <<New("1", k), SetX("1", GridComp(i, 1 + ((c - 1) \div NC), RndMix(sd, 1)))>>
       \o CatN(36, LAMBDA n : LET q == (step * (n + Rnd(sd, 3, 36))) % 36
                                  a == SolveTemps[1 + (q % 6)]
                                  b == SolvePs[1 + (q \div 6)]
                              IN  <<Raw("1", "t", Uni(sd, n + 100, a[1], a[2])), Raw("1", "p", Log(sd, n + 200, b[1], b[2]))>>
                                  \o before(RndMix(sd, n)) \o <<Density("1", mode(n))>>)))
\* a start estimate or none
AnyStart(sd) == CASE Rnd(sd, 1, 6) = 0 -> <<Raw("1", "d", Zero)>>
                  [] Rnd(sd, 1, 6) = 1 -> <<Raw("1", "d", FNeg(Log(sd, 2, "1e-4", "35")))>>
                  [] Rnd(sd, 1, 6) = 2 -> <<Raw("1", "d", FNeg(Uni(sd, 2, "1", "35")))>>
                  [] OTHER -> << >>
EosScenarios(k, onlyprops) ==
  LET a == EosChain("pures", 0, k, NC, LAMBDA i : Pure(i), Key(1, 1), onlyprops)
      pairs(c) == EosChain("pairs", c, k, 15, LAMBDA i : Pair(PairList[15 * c + i][1], PairList[15 * c + i][2],
                                                     F(Pick(Key(2, 15 * c + i), 1, <<"0.5", "0.1", "0.9", "0.3", "0.75">>))),
                         Key(3, c), onlyprops)
      mixes(c) == EosChain("mix", c, k, 5, LAMBDA i : Comp(Key(4, 5 * c + i)), Key(5, c), onlyprops)
  IN  <<a>> \o Tup(14, LAMBDA c : pairs(c - 1)) \o Tup(Count(48), mixes)
      \o Grid(k, IF k = "D" THEN 275 ELSE 276, 1, LAMBDA n : IF onlyprops \/ n % 2 = 0 THEN <<Props("1")>> ELSE <<Pressure("1")>>)

E05Scenarios ==
  Cat(<<Tup(Count(60), LAMBDA c : EosChain("id-D-", c, "D", 8, LAMBDA i : Comp(Key(11, 8 * c + i)), Key(12, c), TRUE)),
        Tup(Count(60), LAMBDA c : EosChain("id-G-", c, "G", 8, LAMBDA i : Comp(Key(13, 8 * c + i)), Key(14, c), TRUE)),
        <<EosChain("id-pures-D-", 0, "D", NC, LAMBDA i : Pure(i), Key(15, 1), TRUE),
          EosChain("id-pures-G-", 0, "G", NC, LAMBDA i : Pure(i), Key(15, 2), TRUE)>>,
        \* after other calculations at other states
        Tup(Count(60), LAMBDA c : LET sd == Key(16, c) IN
          Scn("id-after-", c, "", <<New("1", Pick(sd, 1, <<"D", "G">>)), SetX("1", NatGas(sd)), Raw("1", "t", Temp(sd, 2)),
             Raw("1", "d", Dens(sd, 3)), Props("1"), SetX("1", Comp(Key(17, c))), Raw("1", "t", Uni(sd, 4, "220", "500")),
             Raw("1", "p", Log(sd, 5, "1", "50000")), Raw("1", "d", Zero), Density("1", "0"), Props("1"), MM("1"),
             Raw("1", "t", Temp(sd, 6)), Pressure("1"), Props("1"), SetX("1", Pure(1 + Rnd(sd, 7, NC))), Props("1")>>))>>)

\* Nine property calculations around a state and the request to compare them; off: operations before.
DerivBlock(off, x, t, d) ==
  LET g == F("0.000244140625")
      td(i) == t (.) (One (+) (g (.) FI(<<0, 0, 0, 0, 0, -2, -1, 1, 2>>[i])))
      dd(i) == d (.) (One (+) (g (.) FI(<<0, -2, -1, 1, 2, 0, 0, 0, 0>>[i])))
  IN  <<SetX("1", x)>> \o CatN(9, LAMBDA i : <<Raw("1", "t", td(i)), Raw("1", "d", dd(i)), Props("1")>>)
        \o <<Note("1", <<"deriv">> \o [i \in 1..9 |-> ToString(off + 1 + 3 * i)])>>
DerivScenario(nm, j, k, x, t, d) == Scn(nm, j, "", <<New("1", k)>> \o DerivBlock(1, x, t, d))
\* The same on a calculator that has been used for another composition, at the same or another temperature.
DerivAfter(nm, j, k, y, x, sd) ==
  LET t == Temp(sd, 1)
      d == Dens(sd, 2) (+) F("1e-3")
      t1 == CASE Rnd(sd, 3, 3) = 0 -> t (.) F("0.99951171875") [] Rnd(sd, 3, 3) = 1 -> t [] OTHER -> Temp(sd, 4)
      before == <<New("1", k), SetX("1", y), Raw("1", "t", t1), Raw("1", "d", Dens(sd, 5))>>
                \o (IF Rnd(sd, 6, 2) = 0 THEN <<Props("1")>> ELSE <<Pressure("1")>>)
                \o (IF Rnd(sd, 7, 3) = 0 THEN <<Raw("1", "p", SolveP(sd, 8)), Density("1", IF k = "D" THEN "0" ELSE Pick(sd, 9, <<"0", "1", "2">>))>> ELSE << >>)
  IN  Scn(nm \o k \o "-", j, "", before \o DerivBlock(Len(before), x, t, d))
E06Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(NC, LAMBDA i : DerivScenario("fd-pure-" \o k, i, k, Pure(i), Temp(Key(20 + q, i), 1), Dens(Key(20 + q, i), 2) (+) F("1e-3")))
    \o Tup(210, LAMBDA i : DerivScenario("fd-pair-" \o k, i, k, Pair(PairList[i][1], PairList[i][2], Uni(Key(22 + q, i), 0, "0.1", "0.9")),
                                         Temp(Key(22 + q, i), 1), Dens(Key(22 + q, i), 2) (+) F("1e-3")))
    \o Tup(Count(200), LAMBDA i : DerivScenario("fd-mix-" \o k, i, k, Comp(Key(24 + q, i)),
                                         Temp(Key(24 + q, i), 1), Dens(Key(24 + q, i), 2) (+) F("1e-3")))
    \o Tup(Count(100), LAMBDA i : LET sd == Key(244 + q, i)
                                       y == SatComp(RndMix(sd, 20)) IN
         DerivAfter("fd-after-", i, k, y, IF Rnd(sd, 21, 2) = 0 THEN Shifted(y, RndMix(sd, 22)) ELSE Comp(RndMix(sd, 23)), sd))))

E07Scenarios ==
  LET lows == <<"0", "-0.0", "5e-324", "1e-300", "1e-16", "9.9e-16", "1.1e-15", "1e-14", "1e-12", "1e-10", "1e-8", "1e-6", "1e-5", "1e-4", "1e-3">>
      chain(nm, c, k, x, sd) ==
        Scn(nm, c, "", <<New("1", k), SetX("1", x), Raw("1", "t", Temp(sd, 1))>>
           \o (IF Rnd(sd, 2, 2) = 0 THEN <<Raw("1", "d", Dens(sd, 3)), Props("1")>> ELSE << >>)
           \o CatN(4, LAMBDA i : LET d == F(lows[1 + ((c * 4 + i + Rnd(sd, 9, 15)) % 15)]) IN
                <<Raw("1", "d", d), Pressure("1"), Props("1")>>)
           \o <<Raw("1", "t", Temp(sd, 4)), Raw("1", "d", F(Pick(sd, 5, <<"0", "1e-16">>))), Props("1")>>)
  IN  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
        Tup(NC, LAMBDA i : chain("low-pure-" \o k, i, k, Pure(i), Key(30 + q, i)))
        \o Tup(Count(60), LAMBDA i : chain("low-mix-" \o k, i, k, Comp(Key(32 + q, i)), Key(34 + q, i)))
        \o Words("word-", k, "", 2, 64, 246 + q, Passes(1))))

E08Pairs == SetToSeq({<<i, j>> \in (2..NC) \X (2..NC) : i <= j})
E08Scenarios ==
  Tup(Count(900), LAMBDA i :
    LET sd == Key(40, i)
        t == CASE Rnd(sd, 5, 6) = 0 -> F("280") [] Rnd(sd, 5, 6) = 1 -> F("350") [] OTHER -> Uni(sd, 1, "280", "350")
        p == IF Rnd(sd, 6, 3) = 0 THEN F("10000") ELSE IF Rnd(sd, 2, 4) = 0 THEN Log(sd, 3, "1", "10000") ELSE Uni(sd, 3, "100", "10000")
        ij == E08Pairs[1 + ((i \div 2) % Len(E08Pairs))]
        x == IF i = 1 THEN Pure(1) ELSE IF i % 2 = 0 THEN NatGas(Key(41, i)) ELSE NatPair(Key(302, i), ij[1], ij[2])
    IN  Scn("pair-", i, "", Cat(Tup(2, LAMBDA q : <<New(ToString(q), <<"D", "G">>[q]), SetX(ToString(q), x),
              Raw(ToString(q), "t", t), Raw(ToString(q), "p", p), Density(ToString(q), "0"), Props(ToString(q))>>))
            \o <<Note("1", <<"pair", "5", "6", "11", "12">>)>>))

(* -------------------------------------------------- densities -------------------------------------------------- *)
S01Scenarios ==
  Probed(Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    SolveGrid(k, 281 + q, 3, "", LAMBDA n : IF k = "D" \/ n % 3 > 0 THEN "0" ELSE IF n % 2 = 0 THEN "1" ELSE "2", AnyStart) \o
    Tup(Count(40), LAMBDA c : LET sd == Key(211 + q, c) IN
      SatChain("sat-", c, k, "", 6, sd, LAMBDA i, x : CASE Rnd(sd, i, 3) = 0 -> <<Raw("1", "d", FNeg(LiquidDensity(x) (.) Uni(sd, i + 10, "0.8", "1.4")))>>
                                                          [] Rnd(sd, i, 3) = 1 -> <<Raw("1", "d", Zero)>> [] OTHER -> << >>,
               LAMBDA i : IF k = "D" THEN "0" ELSE Pick(sd, i + 20, <<"0", "0", "1", "2">>)))
    \o Tup(Count(60), LAMBDA c : NearRoot("near-", c, k, "", Key(231 + q, c)))
    \o Words("word-", k, "", 3, 64, 213 + q, Passes(1)))))
  \o Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(110), LAMBDA c : LET sd == Key(50 + q, c) IN
      SolveChain("solve-" \o k, c, k, "", 4, LAMBDA i : SolveComp(Key(52 + q, 4 * c + i), c), sd,
        LAMBDA i : Pick(sd, i + 70, <<"0", "0", "1", "2">>),
        LAMBDA i : CASE Rnd(sd, i + 80, 5) \in 0..1 -> <<Raw("1", "d", Zero)>>
                     [] Rnd(sd, i + 80, 5) = 2 -> <<Raw("1", "d", FNeg(Uni(sd, i + 90, "0.01", "35")))>>
                     [] OTHER -> << >>))))
S03Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    SolveGrid(k, 278 + q, 2, "", LAMBDA n : "0", LAMBDA sd : << >>) \o
    Tup(Count(30), LAMBDA c : SatChain("sat-", c, k, "", 4, Key(216 + q, c), LAMBDA i, x : IF i % 2 = 0 THEN << >> ELSE <<Raw("1", "d", Zero)>>, LAMBDA i : "0"))
    \o Words("word-", k, "", 2, 36, 218 + q, Passes(1))))
  \o Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(50), LAMBDA c : LET sd == Key(55 + q, c) IN
      SolveChain("plain-" \o k, c, k, "", IF c <= NC THEN 6 ELSE 3, LAMBDA i : SolveComp(Key(57 + q, 4 * c + i), c), sd,
        LAMBDA i : "0", LAMBDA i : IF i = 1 THEN << >> ELSE IF Rnd(sd, i, 2) = 0 THEN <<Raw("1", "d", Zero)>> ELSE << >>))
    \o Tup(Count(20), LAMBDA c : LET sd == Key(235 + q, c) IN
      Scn("far-" \o k, c, "", <<New("1", k)>> \o CatN(4, LAMBDA i :
        <<SetX("1", IF Rnd(sd, i + 50, 2) = 0 THEN NatGas(Key(237, 4 * c + i)) ELSE SolveComp(Key(238, 4 * c + i), 1 + Rnd(sd, i + 60, 40))),
          Raw("1", "t", IF Rnd(sd, i + 70, 2) = 0 THEN Uni(sd, i, "250", "450") ELSE Log(sd, i, "50", "3000")),
          Raw("1", "p", IF Rnd(sd, i + 10, 3) = 0 THEN Log(sd, i + 20, "1e5", "1e7") ELSE Log(sd, i + 20, "1e-14", "1e-3")), Raw("1", "d", Zero), Density("1", "0")>>)))
    \o Tup(Count(30), LAMBDA c : LET sd == Key(59 + q, c) IN
      Scn("natural-" \o k, c, "", <<New("1", k)>> \o CatN(6, LAMBDA i :
        <<SetX("1", NatGas(Key(61 + q, (c * 6 + i) \div 3))), Raw("1", "t", Uni(sd, i, "250", "450")),
          Raw("1", "p", IF Rnd(sd, i + 10, 3) = 0 THEN Log(sd, i + 20, IF c % 2 = 0 THEN "1e-3" ELSE "1e-14", "35000") ELSE Uni(sd, i + 20, "1", "35000")), Density("1", "0")>>)))))
\* States where the phase check of GERG decides: <<composition, temperature, pressure>>.
RefusedStates == <<  \* component, temperature, pressure: d2P/dTdD is negative, or Cv and W are
  <<1, "60", "251188.6">>, <<3, "67", "794328.2">>, <<4, "60", "63.1">>, <<4, "67", "7943.28">>, <<4, "74", "125892.5">>, <<4, "277", "3981.07">>, <<8, "368", "1995.26">>,
  <<13, "382", "6309.57">>, <<18, "249", "31622.8">>, <<14, "60", "1e4">>, <<14, "67", "1e5">>, <<14, "64", "2e5">>, <<12, "316.8", "5415">>, <<5, "259.2", "12090">>,
  <<14, "450.7", "7226.6">>, <<3, "58.1", "68085">> >>
\* The two-phase check for states where it decides: at given states, and wherever low temperatures and high pressures reach.
CheckScenarios ==
  Tup(Len(RefusedStates), LAMBDA i : LET r == RefusedStates[i] IN
    Scn("given-", i, "", <<New("1", "G"), SetX("1", Pure(r[1])), Raw("1", "t", F(r[2])), Raw("1", "p", F(r[3])), Density("1", "1"), Density("1", "2"), Density("1", "0")>>))
  \o Tup(Count(200), LAMBDA c : LET sd == Key(227, c) IN
    Scn("cold-", c, "", <<New("1", "G")>> \o CatN(3, LAMBDA i :
      <<SetX("1", IF Rnd(sd, i, 3) = 0 THEN SatComp(RndMix(sd, i)) ELSE Pure(1 + Rnd(sd, i + 50, NC))), Raw("1", "t", Uni(sd, i + 10, "60", "400")), Raw("1", "p", Log(sd, i + 20, "100", "1e6")),
        Density("1", Pick(sd, i + 30, <<"1", "2">>))>>)))
  \o Tup(Count(60), LAMBDA c : LET sd == Key(229, c) IN
    SatChain("sat-", c, "G", "", 3, sd, LAMBDA i, x : IF Rnd(sd, i, 3) = 0 THEN <<Raw("1", "d", FNeg(LiquidDensity(x)))>> ELSE << >>, LAMBDA i : Pick(sd, i + 20, <<"1", "2">>)))
\* Where liquid and vapour are both found, from estimates near either, in the modes given.
Estimates(nm, n, flags, k, g, modes) ==
  Tup(Count(n), LAMBDA c : LET sd == Key(g, c)
                               x == SatComp(sd)
                               st == NearSat(RndMix(sd, 1), x)
                               vap(i) == (st[2] (/) (F("8.31446") (.) st[1])) (.) Uni(sd, i + 60, "0.3", "1.5")
                           IN
    Scn(nm, c, flags, <<New("1", k), SetX("1", x), Raw("1", "t", st[1])>> \o CatN(5, LAMBDA i :
      <<Raw("1", "p", st[2] (.) F(Pick(sd, i + 10, <<"1", "0.97", "0.9", "0.7", "1.03", "1.1", "0.3", "0.1">>))),
        Raw("1", "d", CASE Rnd(sd, i + 20, 4) \in 0..1 -> FNeg(vap(i)) [] Rnd(sd, i + 20, 4) = 2 -> FNeg(LiquidDensity(x) (.) Uni(sd, i + 30, "0.9", "1.3")) [] OTHER -> FNeg(Log(sd, i + 40, "1e-3", "1"))),
        Density("1", Pick(sd, i + 50, modes))>>)))
S04Scenarios ==
  Estimates("estimate-", 60, "", "G", 295, <<"2", "2", "1">>) \o CheckScenarios \o SolveGrid("G", 287, 2, "", LAMBDA n : IF n % 2 = 0 THEN "1" ELSE "2", LAMBDA sd : IF Rnd(sd, 3, 3) = 0 THEN AnyStart(sd) ELSE << >>)
  \o SolveGrid("G", 288, 1, "", LAMBDA n : IF n % 2 = 1 THEN "1" ELSE "2", LAMBDA sd : << >>) \o Tup(Count(70), LAMBDA c : LET sd == Key(64, c) IN
    Scn("modes-", c, "", <<New("1", "G"), SetX("1", SolveComp(Key(65, c), c)), Raw("1", "t", SolveTemp(sd, 1)), Raw("1", "p", SolveP(sd, 2))>>
      \o CatN(3, LAMBDA i :
          <<Raw("1", "d", IF Rnd(sd, i + 10, 4) = 0 THEN FNeg(Uni(sd, i + 20, "0.01", "30")) ELSE Zero), Density("1", <<"1", "2", "0">>[i])>>)
      \o <<Raw("1", "t", SolveTemp(sd, 3)), Raw("1", "p", Log(sd, 4, "1", "5000")), Density("1", Pick(sd, 5, <<"1", "2">>)), Density("1", Pick(sd, 6, <<"1", "2">>)),
           SetX("1", Pure(1 + Rnd(sd, 7, NC))), Raw("1", "t", Uni(sd, 8, "90", "300")), Density("1", "1"), Raw("1", "d", Zero), Density("1", "2")>>))
S05Scenarios ==
  Estimates("estimate-G-", 60, "Z", "G", 296, <<"2", "2", "1", "0">>) \o Estimates("estimate-D-", 30, "Z", "D", 297, <<"0">>) \o
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Words("word-", k, "Z", 3, 64, 221 + q, Passes(1))
    \o SolveGrid(k, 284 + q, 1, "Z", LAMBDA n : IF k = "D" \/ n % 7 > 0 THEN "0" ELSE "1", AnyStart)
    \o Tup(Count(60), LAMBDA c : NearRoot("near-", c, k, "Z", Key(233 + q, c)))
    \o Tup(Count(30), LAMBDA c : LET sd == Key(223 + q, c) IN
         SatChain("sat-", c, k, "Z", 4, sd, LAMBDA i, x : CASE Rnd(sd, i, 3) = 0 -> <<Raw("1", "d", FNeg(LiquidDensity(x) (.) Uni(sd, i + 10, "0.8", "1.4")))>>
                                                          [] Rnd(sd, i, 3) = 1 -> <<Raw("1", "d", FNeg(Log(sd, i + 10, "1e-3", "1")))>> [] OTHER -> << >>, LAMBDA i : "0"))
    \* on one isotherm: the liquid, then the vapour, from the default start
    \o Tup(Count(60), LAMBDA c : LET sd == Key(225 + q, c)
                                      x == SatComp(sd)
                                      st == NearSat(RndMix(sd, 1), x) IN
         Scn("isotherm-" \o k \o "-", c, "Z", <<New("1", k), SetX("1", x), Raw("1", "t", st[1])>> \o CatN(6, LAMBDA i :
            (IF i % 2 = 1 THEN <<Raw("1", "p", st[2] (.) Log(sd, i + 10, "1", "30")), Raw("1", "d", FNeg(LiquidDensity(x) (.) Uni(sd, i + 20, "0.9", "1.3")))>>
             ELSE <<Raw("1", "p", st[2] (.) F(Pick(sd, i + 10, <<"1", "0.9", "0.7", "0.4", "0.1", "0.01">>)))>>
                  \o (IF Rnd(sd, i + 20, 2) = 0 THEN <<Raw("1", "d", F(Pick(sd, i + 30, <<"0", "1", "1e-3">>)))>> ELSE << >>))
            \o <<Density("1", "0")>> \o (IF Rnd(sd, i, 2) = 0 THEN << >> ELSE <<Props("1")>>))))))
  \o Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(60), LAMBDA c : LET sd == Key(66 + q, c)
                                  x == SolveComp(Key(68 + q, c), c)
                                  st(i) == CASE i = 1 -> Zero
                                             [] Rnd(sd, i, 6) = 0 -> Nan
                                             [] Rnd(sd, i, 6) = 1 -> Uni(sd, i + 10, "0", "40")
                                             [] Rnd(sd, i, 6) = 2 -> F(Pick(sd, i + 10, <<"1e-16", "-1e-16", "-9.9e-16", "-0.0", "1e300", "5e-324", "1e-10", "-5e-324">>))
                                             [] Rnd(sd, i, 6) = 3 -> Inf
                                             [] OTHER -> FNeg(Uni(sd, i + 10, "0.001", "35"))
                              IN
      Scn("start-" \o k, c, "Z", <<New("1", k), SetX("1", x)>> \o CatN(6, LAMBDA i :
         <<Raw("1", "t", SolveTemp(sd, i + 40)), Raw("1", "p", IF Rnd(sd, i + 60, 12) = 0 THEN F(Pick(sd, i + 61, <<"0", "-1", "1e-16", "1e9">>)) ELSE SolveP(sd, i + 50))>>
         \o (IF Rnd(sd, i + 70, 3) = 0 THEN << >> ELSE <<Raw("1", "d", st(i))>>)
         \o <<Density("1", IF k = "G" /\ Rnd(sd, i + 80, 4) = 0 THEN Pick(sd, i + 81, <<"1", "2">>) ELSE "0")>>
         \o (IF Rnd(sd, i + 90, 3) = 0 THEN <<Props("1")>> ELSE << >>))))))

(* -------------------------------------------------- odd numbers -------------------------------------------------- *)
Odd(sd, j) ==
  Pick(sd, j, <<Zero, FNeg(Zero), F("5e-324"), F("-5e-324"), F("1e-300"), F("1e-16"), F("9.99e-16"), F("1e-15"), F("1.0000001e-15"),
                F("-1e-15"), F("-1"), F("-300"), F("1e5"), F("1e9"), F("1e12"), F("1e100"), F("1e300"), F("1.7976931348623157e308"),
                F("-1.7976931348623157e308"), Inf, FNeg(Inf), Nan, F("300"), F("5000"), F("1e-3"), F("40"), F("1e3")>>)
OddComp(sd) ==
  CASE Rnd(sd, 0, 8) \in 0..2 -> Comp(Key(71, sd % 100000))
    [] Rnd(sd, 0, 8) = 3 -> FVec([i \in 1..NC |-> Odd(sd, 10 + i)])
    [] Rnd(sd, 0, 8) = 4 -> LET w == 1 + Rnd(sd, 1, NC) IN FVec([i \in 1..NC |-> IF i = w THEN Odd(sd, 2) ELSE F("0.05")])
    [] Rnd(sd, 0, 8) = 5 -> FVec([i \in 1..NC |-> IF i <= 2 THEN Pick(sd, 3, <<F("1e300"), F("2"), F("1e10")>>) (.) FI(3 - 2 * i) ELSE IF i = 3 THEN One ELSE Zero])
    [] Rnd(sd, 0, 8) = 6 -> FVec([i \in 1..NC |-> Zero])
    [] OTHER -> FVec([i \in 1..NC |-> IF Rnd(sd, 20 + i, 3) = 0 THEN F("1e-15") (.) FRnd(sd, 50 + i) ELSE IF i = 1 THEN One ELSE Zero])
OddOps(h, k, sd, j) ==
  CASE Rnd(sd, j, 10) = 0 -> <<SetX(h, OddComp(Key(72, (sd % 50000) + j)))>>
    [] Rnd(sd, j, 10) = 1 -> <<<<"rawx", h>> \o SubSeq(SetX(h, OddComp(Key(73, (sd % 50000) + j))), 3, NC + 2)>>
    [] Rnd(sd, j, 10) = 2 -> <<Raw(h, "t", Odd(sd, j + 1000))>>
    [] Rnd(sd, j, 10) = 3 -> <<Raw(h, "p", Odd(sd, j + 2000))>>
    [] Rnd(sd, j, 10) = 4 -> <<Raw(h, "d", Odd(sd, j + 3000))>>
    [] Rnd(sd, j, 10) = 5 -> <<Raw(h, "t", Temp(sd, j + 1000)), Raw(h, "p", SolveP(sd, j + 2000))>>
    [] Rnd(sd, j, 10) = 6 -> <<Pressure(h)>>
    [] Rnd(sd, j, 10) = 7 -> <<Props(h), MM(h)>>
    [] OTHER -> <<Density(h, IF k = "D" THEN "0" ELSE Pick(sd, j + 4000, <<"0", "0", "1", "2", "-1", "7", "3", "-2147483648", "2147483647">>))>>
OddScenarios(g, nn, len) ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN Tup(Count(nn), LAMBDA c :
    Scn("odd-" \o k, c, "", <<New("1", k)>> \o CatN(len, LAMBDA j : OddOps("1", k, Key(g + q, c), j))))))
X01Scenarios ==
  OddScenarios(74, 250, 14)
  \o Tup(Count(150), LAMBDA c : LET x == OddComp(Key(76, c)) IN
       Scn("odd-comp-", c, "", <<<<"check", "-">> \o SubSeq(SetX("1", x), 3, NC + 2), <<"norm", "-">> \o SubSeq(SetX("1", x), 3, NC + 2),
                                 <<"sum", "-">> \o SubSeq(SetX("1", x), 3, NC + 2)>>))
  \o Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN Tup(Count(120), LAMBDA c : LET sd == Key(77 + q, c) IN
       \* states inside the two-phase region and beyond the range, where the radicand of the speed of sound changes sign
       Scn("unstable-" \o k, c, "", <<New("1", k), SetX("1", SolveComp(Key(79, c), c))>> \o CatN(4, LAMBDA i :
         <<Raw("1", "t", Uni(sd, i, "40", "400")), Raw("1", "d", Uni(sd, i + 10, "0.1", "45")), Props("1")>>)))))
  \o Tup(1, LAMBDA i : Scn("unset", i, "", Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q]
                                                                    h == ToString(q) IN
       <<New(h, k), MM(h), Pressure(h), Props(h), Density(h, "0"), Raw(h, "p", One), Density(h, "0"), Density(h, IF k = "G" THEN "2" ELSE "0"), Props(h)>>))))

S02Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(200), LAMBDA c : LET sd == Key(81 + q, c) IN
      Scn("fail-" \o k, c, "C", <<New("1", k), SetX("1", IF Rnd(sd, 0, 3) = 0 THEN Mix(sd, One) ELSE Pure(1 + Rnd(sd, 1, NC)))>>
       \o CatN(5, LAMBDA i :
            <<Raw("1", "t", IF Rnd(sd, i + 10, 3) = 0 THEN Odd(sd, i + 20) ELSE SolveTemp(sd, i + 20)),
              Raw("1", "p", IF Rnd(sd, i + 30, 3) = 0 THEN SolveP(sd, i + 40) ELSE Odd(sd, i + 40))>>
            \o (IF Rnd(sd, i + 50, 2) = 0 THEN <<Raw("1", "d", Odd(sd, i + 60))>> ELSE << >>)
            \o <<Density("1", "0")>>)))))
  \o Tup(Count(120), LAMBDA c : LET sd == Key(84, c) IN
      Scn("fail-mode-", c, "", <<New("1", "G"), SetX("1", Comp(Key(85, c)))>> \o CatN(4, LAMBDA i :
            <<Raw("1", "t", IF Rnd(sd, i + 10, 4) = 0 THEN Odd(sd, i + 20) ELSE Uni(sd, i + 20, "40", "500")),
              Raw("1", "p", IF Rnd(sd, i + 30, 2) = 0 THEN SolveP(sd, i + 40) ELSE Odd(sd, i + 40)), Density("1", Pick(sd, i + 50, <<"1", "2">>))>>)))
  \o Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN Tup(Count(40), LAMBDA c : LET sd == Key(86 + q, c) IN
      \* no solution: too high a pressure, too low a temperature
      Scn("none-" \o k, c, "C", <<New("1", k), SetX("1", SolveComp(Key(88, c), c))>> \o CatN(4, LAMBDA i :
         <<Raw("1", "t", Log(sd, i, "1", "300")), Raw("1", "p", Log(sd, i + 10, "1e3", "1e13")), Density("1", "0")>>)))))

(* -------------------------------------------------- compositions -------------------------------------------------- *)
XArgs(x) == [i \in 1..NC |-> Bi(x[i])]
EdgeTotals == <<"0.99", "1.01", "0.989", "1.011", "0.98999999999", "0.99000000001", "1.00999999999", "1.01000000001", "1", "0.9999", "1.0001",
                "0.5", "2", "100", "-1", "-1.01", "-0.99", "0", "1e-10", "-1e-10", "0.99e-10", "1.01e-10", "-0.99e-10", "-1.01e-10", "1e-11", "2e-10", "1e-9", "1e-3",
                "1e-300", "1e300", "0.98", "1.02", "0.992", "1.008", "0.9900000000001", "0.9899999999999", "1.0100000000001", "1.0099999999999",
                "1.00000000000001e-10", "0.99999999999999e-10">>
Spread(total, sd, m) ==      \* total spread over m components
  LET raw == FVec([i \in 1..NC |-> FRnd(sd, i) (+) F("0.01")])
      first == Rnd(sd, 0, NC)
      on(i) == (i + first) % NC < m
      tot == FSum([i \in 1..NC |-> IF on(i) THEN raw[i] ELSE Zero])
  IN  FVec([i \in 1..NC |-> IF on(i) THEN (raw[i] (/) tot) (.) total ELSE Zero])
CheckAll(x) == <<<<"check", "-">> \o XArgs(x), SetX("1", x), SetX("2", x)>>
TwoCalcs == <<New("1", "D"), New("2", "G")>>
C01Scenarios ==
  Tup(NC, LAMBDA i : Scn("edge-pure-", i, "C", TwoCalcs \o CatN(Len(EdgeTotals), LAMBDA j :
        IF (i + j) % 5 = 0 \/ j <= 8 THEN CheckAll(FVec([m \in 1..NC |-> IF m = i THEN F(EdgeTotals[j]) ELSE Zero])) ELSE << >>)))
  \o Tup(NC, LAMBDA i : Scn("odd-one-", i, "C", TwoCalcs \o CatN(6, LAMBDA j :
        CheckAll(FVec([m \in 1..NC |-> IF m = i THEN <<Nan, Inf, FNeg(Inf), Nan, Inf, F("1e308")>>[j] ELSE IF j >= 4 /\ m = 1 THEN One ELSE Zero])))))
  \o Tup(Len(EdgeTotals), LAMBDA j : Scn("edge-mix-", j, "C", TwoCalcs \o CatN(5, LAMBDA i :
        CheckAll(Spread(F(EdgeTotals[j]), Key(90, 10 * j + i), <<2, 3, 7, 20, 21>>[i])))))
  \o Tup(Count(40), LAMBDA c : Scn("sum-", c, "C", TwoCalcs \o CatN(6, LAMBDA i :
        CheckAll(CASE i <= 2 -> Spread(Uni(Key(91, c), i, "0.97", "1.03"), Key(92, 10 * c + i), 1 + Rnd(Key(91, c), 10 + i, 21))
                   [] i = 3 -> Spread(Log(Key(91, c), i, "1e-12", "1e3"), Key(92, 10 * c + i), 1 + Rnd(Key(91, c), 10 + i, 21))
                   [] i = 4 -> Spread(FNeg(Log(Key(91, c), i, "1e-12", "1e3")), Key(92, 10 * c + i), 1 + Rnd(Key(91, c), 10 + i, 21))
                   [] i = 5 -> OddComp(Key(93, c))
                   [] OTHER -> LET w == 1 + Rnd(Key(91, c), 20, NC)
                                   y == Comp(Key(94, c))
                                   e == Uni(Key(91, c), 21, "-0.02", "0.02")
                               IN  FVec([m \in 1..NC |-> IF m = w THEN y[m] (+) e ELSE y[m]])))))

\* setting compositions in the middle of other work
RejectComp(sd) == CASE Rnd(sd, 0, 4) = 0 -> Spread(Uni(sd, 1, "1.02", "3"), sd, 5)
                    [] Rnd(sd, 0, 4) = 1 -> FVec([i \in 1..NC |-> Zero])
                    [] Rnd(sd, 0, 4) = 2 -> Spread(Uni(sd, 1, "0.1", "0.98"), sd, 12)
                    [] OTHER -> FVec([i \in 1..NC |-> IF i = 1 + Rnd(sd, 2, NC) THEN Nan ELSE IF i = 1 THEN One ELSE Zero])
\* accepted although a fraction is odd: negative, negative zero, subnormal, above 1
OddFractions == <<"-1e-3", "-0.0", "-1e-12", "5e-324", "-5e-324", "1e-300", "-0.3", "2", "-1.5", "1e-16", "-1e-16", "1e-9">>
WithOdd(i, v, sd) == LET w == 1 + ((i + Rnd(sd, 1, NC - 1)) % NC)
                         total == Uni(sd, 2, "0.992", "1.008")
                         y == IF Rnd(sd, 3, 2) = 0 THEN Mix(RndMix(sd, 4), total) ELSE FVec([m \in 1..NC |-> IF m = w THEN total ELSE Zero])
                         rest == total (-) v
                         had == FSum([m \in 1..NC |-> IF m = i THEN Zero ELSE y[m]])
                     IN  IF FLt(F("1e-3"), had) THEN FVec([m \in 1..NC |-> IF m = i THEN v ELSE IF FEq(y[m], Zero) THEN y[m] ELSE (y[m] (/) had) (.) rest])
                         ELSE FVec([m \in 1..NC |-> IF m = i THEN v ELSE IF m = w THEN rest ELSE Zero])
C02Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
   Tup(NC, LAMBDA i : Scn("oddly-" \o k, i, "RC", <<New("1", k)>> \o CatN(Len(OddFractions), LAMBDA j :
        <<SetX("1", WithOdd(i, F(OddFractions[j]), Key(240 + q, 100 * i + j)))>> \o (IF j % 3 = 0 THEN <<SetX("1", RejectComp(Key(242, 100 * i + j))), MM("1")>> ELSE IF j % 3 = 1 THEN <<MM("1")>> ELSE << >>))))
   \o
   Tup(NC, LAMBDA i : Scn("place-" \o k, i, "RC", <<New("1", k), SetX("1", Pure(i)), Raw("1", "t", F("300")), Raw("1", "d", One), Pressure("1"), MM("1"),
                             SetX("1", Pair(i, 1 + (i % NC), F("0.25"))), Pressure("1"), SetX("1", RejectComp(Key(95, i))), Pressure("1"), Props("1")>>))
   \o Tup(Count(80), LAMBDA c : LET sd == Key(96 + q, c) IN
       Scn("set-" \o k, c, "RC", <<New("1", k)>> \o CatN(8, LAMBDA i :
         (CASE Rnd(sd, i, 4) = 0 -> <<SetX("1", RejectComp(Key(98, 10 * c + i)))>>
            [] Rnd(sd, i, 4) = 1 -> <<SetX("1", Mix(Key(99, 10 * c + i), Uni(sd, i + 5, "0.991", "1.009")))>>
            [] OTHER -> <<SetX("1", Comp(Key(100, 10 * c + i)))>>)
         \o (CASE Rnd(sd, i + 20, 5) = 0 -> <<Raw("1", "t", Temp(sd, i + 30)), Raw("1", "d", Dens(sd, i + 40)), Props("1")>>
               [] Rnd(sd, i + 20, 5) = 1 -> <<Raw("1", "p", SolveP(sd, i + 30)), Raw("1", "t", F("330")), Density("1", "0")>>
               [] Rnd(sd, i + 20, 5) = 2 -> <<Pressure("1"), MM("1")>>
               [] OTHER -> << >>))))))
\* Natural gas: isotherms in any order of pressures, isobars, and pressures calculated by the specification for densities;
\* after, and between, calculations in other states.
DS == INSTANCE DensitySolver
S06Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(160), LAMBDA c :
      LET sd == Key(304 + q, c)
          ij == E08Pairs[1 + Rnd(sd, 1, Len(E08Pairs))]
          x == IF c = 1 THEN Pure(1) ELSE IF c % 3 = 0 THEN NatPair(RndMix(sd, 2), ij[1], ij[2]) ELSE NatGas(RndMix(sd, 2))
          t == CASE Rnd(sd, 3, 5) = 0 -> F("250") [] Rnd(sd, 3, 5) = 1 -> Uni(sd, 4, "250", "270") [] OTHER -> Uni(sd, 4, "250", "450")
          p0 == IF Rnd(sd, 5, 3) = 0 THEN Log(sd, 6, "1e-3", "30000") ELSE Uni(sd, 6, "100", "30000")
          up == F(Pick(sd, 7, <<"1.00001", "1.0001", "1.001", "1.01", "1.02", "1.02">>))
          ps == <<p0, p0 (.) up, (p0 (.) up) (.) up, p0 (.) F("1.1"), p0 (.) F("1.16"), F("35000")>>
          \* the order in which they are asked for
          order == Pick(sd, 8, <<<<1, 2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2, 1>>, <<6, 1, 5, 2, 4, 3>>, <<3, 1, 2, 6, 4, 5>>, <<2, 6, 1, 3, 5, 4>>>>)
          head == <<New("1", k), SetX("1", IF Rnd(sd, 9, 2) = 0 THEN NatGas(RndMix(sd, 10)) ELSE Comp(RndMix(sd, 10))), Raw("1", "t", SolveTemp(sd, 11)), Raw("1", "p", SolveP(sd, 12)), Density("1", "0"), Props("1"),
                    SetX("1", x), Raw("1", "t", t)>>
          at(j) == 8 + 3 * (CHOOSE n \in 1..6 : order[n] = j) - 1
          iso == CatN(6, LAMBDA n : <<Raw("1", "p", ps[order[n]]), Density("1", "0"), Props("1")>>)
          t2 == t (.) F(Pick(sd, 13, <<"1.00001", "1.001", "1.01", "1.1">>))
          heat == <<Note("1", <<"iso">> \o [j \in 1..6 |-> ToString(at(j))]), Raw("1", "t", t2), Raw("1", "p", ps[4]), Density("1", "0"), Note("1", <<"heat", ToString(at(4)), "30">>), Raw("1", "t", t)>>
          e == DS!Fluid(k, x, t)
          away(n) == IF Rnd(sd, 20 + n, 3) = 0 THEN Log(sd, 30 + n, "1e-6", "10") ELSE Uni(sd, 30 + n, "0", "15")
          back == CatN(4, LAMBDA n : LET d == IF n % 2 = 0 /\ Rnd(sd, 40 + n, 2) = 0 THEN away(n - 1) (.) F(Pick(sd, 50 + n, <<"1.0003", "0.999", "1.002">>)) ELSE away(n)
                                     IN  <<Raw("1", "d", d), Props("1"), Raw("1", "p", DS!PandSlope(e, d).p), Density("1", "0"), Note("1", <<"round", ToString(32 + 5 * n - 1), Bi(d)>>)>>)
      IN  Scn("gas-" \o k, c, "", head \o iso \o heat \o back))))
C03Scenarios ==
  Tup(Count(300), LAMBDA c : LET sd == Key(101, c) IN
    Scn("norm-", c, "", CatN(3, LAMBDA i :
      LET x == CASE Rnd(sd, i + 50, 3) = 0 -> Spread(F(Pick(sd, i + 60, <<"1", "100", "10", "1000", "1e6", "1", "100", "0.5", "2", "21", "1e-3", "1e-10">>))
                                                      (.) (One (+) (F(Pick(sd, i + 70, <<"1", "-1">>)) (.) Log(sd, i + 80, "1e-15", "0.1"))), Key(102, 3 * c + i), 1 + Rnd(sd, i + 20, 21))
                 [] Rnd(sd, i, 6) = 0 -> Spread(Log(sd, i + 10, "1e-300", "1e300"), Key(102, 3 * c + i), 1 + Rnd(sd, i + 20, 21))
                 [] Rnd(sd, i, 6) = 1 -> Spread(Log(sd, i + 10, "1e-5", "1e5"), Key(102, 3 * c + i), 1 + Rnd(sd, i + 20, 21))
                 [] Rnd(sd, i, 6) = 2 -> FVec([j \in 1..NC |-> IF Rnd(sd, 30 * i + j, 2) = 0 THEN Zero ELSE Log(sd, 30 * i + 1000 + j, "1e-12", "100")])
                 [] Rnd(sd, i, 6) = 3 -> LET w == 1 + Rnd(sd, i + 30, NC) IN FVec([j \in 1..NC |-> IF j = w THEN Log(sd, i + 40, "1e-300", "1e300") ELSE Zero])
                 [] Rnd(sd, i, 6) = 4 -> OddComp(Key(103, 3 * c + i))
                 [] OTHER -> Spread(FI(100), Key(102, 3 * c + i), 21)
      IN  <<<<"norm", "-">> \o XArgs(x), <<"sum", "-">> \o XArgs(x)>>)))
  \* one large component; the total is close to a round number
  \o Tup(Count(120), LAMBDA c : LET sd == Key(293, c)
                                    total == F(<<"10", "100", "1000", "1e4", "1e6", "1e9", "1", "0.01">>[1 + (c % 8)])
                                    w == IF Rnd(sd, 1, 2) = 0 THEN 1 ELSE 1 + Rnd(sd, 2, NC)
                                    y == Spread(total (.) Uni(sd, 3, "0.02", "0.45"), Key(294, c), 2 + Rnd(sd, 4, 19))
                                    aim == total (.) (One (+) (F(Pick(sd, 5, <<"1", "-1">>)) (.) Log(sd, 6, "1e-9", "3e-3")))
                                    x == [y EXCEPT ![w] = aim (-) FSum([j \in 1..NC |-> IF j = w THEN Zero ELSE y[j]])]
                                IN  Scn("norm-round-", c, "", <<<<"norm", "-">> \o XArgs(x), <<"sum", "-">> \o XArgs(x)>>))
  \o Tup(NC, LAMBDA j : Scn("norm-one-", j, "", <<<<"norm", "-">> \o XArgs(FVec([m \in 1..NC |-> FI(IF m = j THEN 3 ELSE 1)])),
                                                  <<"norm", "-">> \o XArgs(FVec([m \in 1..NC |-> FI(IF m = j THEN 3 ELSE 0)])),
                                                  <<"norm", "-">> \o XArgs(FVec([m \in 1..NC |-> FI(IF m = j THEN -3 ELSE 0)]))>>))
C04Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(NC, LAMBDA i : Scn("mm-pure-" \o k, i, "C", <<New("1", k), SetX("1", Pure(i)), MM("1"), Raw("1", "t", F("300")), Raw("1", "d", One), Props("1"),
                             SetX("1", Pair(i, 1 + (i % NC), F("0.99"))), Props("1"), SetX("1", Pair(i, 1 + ((i + 5) % NC), F("0.5"))), MM("1")>>))
    \o Tup(Count(120), LAMBDA c : LET sd == Key(104 + q, c) IN
         Scn("mm-" \o k, c, "C", <<New("1", k)>> \o CatN(5, LAMBDA i :
           <<SetX("1", Comp(Key(106 + q, 5 * c + i)))>> \o
           (CASE Rnd(sd, i, 4) = 0 -> <<MM("1")>>
              [] Rnd(sd, i, 4) = 1 -> <<Raw("1", "t", Temp(sd, i + 10)), Raw("1", "d", Dens(sd, i + 20)), Props("1")>>
              [] Rnd(sd, i, 4) = 2 -> <<Raw("1", "t", F("320")), Raw("1", "p", SolveP(sd, i + 30)), Density("1", "0"), MM("1")>>
              [] OTHER -> <<Raw("1", "t", Temp(sd, i + 10)), Pressure("1"), MM("1"), Props("1")>>))))))

(* -------------------------------------------------- histories -------------------------------------------------- *)
HistComp(sd, c, j) ==      \* a small pool of compositions and their neighbours
  LET base == Comp(Key(110, 3 * c + Rnd(sd, j + 400, 2)))
  IN  CASE Rnd(sd, j + 500, 8) \in 0..1 -> base
        [] Rnd(sd, j + 500, 8) \in 2..5 -> Shifted(base, Key(111, 100 * c + Rnd(sd, j + 600, 5)))
        [] Rnd(sd, j + 500, 8) = 6 -> RejectComp(Key(112, 100 * c + j))
        [] OTHER -> Comp(Key(113, 100 * c + j))
HistTemp(sd, c, j) ==
  LET base == Temp(Key(114, 3 * c + Rnd(sd, j + 700, 2)), 1)
  IN  CASE Rnd(sd, j + 800, 3) = 0 -> base
        [] Rnd(sd, j + 800, 3) = 1 -> base (.) (One (+) F(Pick(sd, j + 900, Deltas)))
        [] OTHER -> Temp(sd, j + 950)
HistOps(h, k, sd, c, j, modes) ==
  CASE Rnd(sd, j, 16) \in 0..3 -> <<SetX(h, HistComp(sd, c, j))>>
    [] Rnd(sd, j, 16) \in 4..6 -> <<Raw(h, "t", HistTemp(sd, c, j))>>
    [] Rnd(sd, j, 16) = 7 -> <<Raw(h, "d", IF Rnd(sd, j + 100, 5) = 0 THEN FNeg(Dens(sd, j + 150)) ELSE Dens(sd, j + 150))>>
    [] Rnd(sd, j, 16) = 8 -> <<Raw(h, "p", IF Rnd(sd, j + 100, 8) = 0 THEN Pick(sd, j + 160, <<Zero, FNeg(One), F("1e12"), Nan>>) ELSE SolveP(sd, j + 150))>>
    [] Rnd(sd, j, 16) \in 9..10 -> <<Pressure(h)>>
    [] Rnd(sd, j, 16) \in 11..12 -> <<Props(h)>>
    [] Rnd(sd, j, 16) \in 13..14 -> <<Density(h, IF k = "D" THEN "0" ELSE Pick(sd, j + 170, modes))>>
    [] OTHER -> <<MM(h)>>
HistStart(h, k, sd, c) == <<New(h, k), SetX(h, Comp(Key(110, 3 * c))), Raw(h, "t", Temp(Key(114, 3 * c), 1)), Raw(h, "d", Dens(sd, 1)), Raw(h, "p", SolveP(sd, 2))>>
Hist(nm, c, k, flags, len, sd, modes) ==
  Scn(nm, c, flags, HistStart("1", k, sd, c) \o CatN(len, LAMBDA j : HistOps("1", k, sd, c, j, modes)) \o <<Pressure("1"), Props("1")>>)
DD == INSTANCE DetailData
MassD == FDecVec(DD!MMIs)
MassG == FDecVec(MMGs)
H01Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(90), LAMBDA c : Hist("hist-" \o k, c, k, "R", 16, Key(115 + q, c), <<"0", "0", "1", "2">>))
    \* more calculations than a 16-bit counter counts
    \o <<Scn("long-", q, "R", <<New("1", k), SetX("1", NatGas(Key(273, q))), Raw("1", "t", F("300")), Raw("1", "d", F("3")), Props("1"),
           <<"spin", "1", "66000", "pressure">>, Pressure("1"), SetX("1", Pure(1)), Pressure("1"), Raw("1", "t", F("400")), Props("1"), <<"spin", "1", "66000", "mm">>, MM("1"),
           Raw("1", "p", F("3000")), <<"spin", "1", "3000", "density">>, Density("1", "0"), Props("1")>>)>>
    \* inputs that are easily taken for the ones before: permuted fractions, equal moments, masses, or lower digits
    \o Tup(Count(60), LAMBDA c :
        LET sd == Key(280 + q, c)
            M == IF k = "D" THEN MassD ELSE MassG
            i == 2 + Rnd(sd, 1, NC - 2)
            j == 1 + ((i + Rnd(sd, 2, NC - 1)) % NC)
            m == CHOOSE n \in 1..NC : n \notin {i, j} /\ \A l \in 1..NC : l \notin {i, j} => n <= l
            w == Uni(sd, 3, "0.2", "0.45")
            e == F(Pick(sd, 4, <<"0.1", "0.01", "1e-4">>))
            at(f) == FVec([n \in 1..NC |-> f[n]])
            A == CASE c % 6 \in {0, 1} -> FVec([n \in 1..NC |-> IF n = i THEN w ELSE IF n = j THEN One (-) w ELSE Zero])
                   [] c % 6 = 2 -> FVec([n \in 1..NC |-> IF n = i - 1 \/ n = i + 1 THEN F("0.25") ELSE IF n = i THEN F("0.5") ELSE Zero])
                   [] c % 6 = 3 -> LET g == IF c % 4 < 2 THEN <<6, 7>> ELSE <<8, 9>> IN FVec([n \in 1..NC |-> IF n = g[1] THEN w ELSE IF n = g[2] THEN F("0.1") ELSE IF n = 1 THEN F("0.9") (-) w ELSE Zero])
                   [] OTHER -> FVec([n \in 1..NC |-> IF n = i THEN w ELSE IF n = j THEN F("0.3") ELSE IF n = m THEN F("0.7") (-) w ELSE Zero])
            dj == e (.) ((M[m] (-) M[i]) (/) (M[j] (-) M[m]))
            B == CASE c % 6 \in {0, 1} -> FVec([n \in 1..NC |-> IF n = j THEN w ELSE IF n = i THEN One (-) w ELSE Zero])
                   [] c % 6 = 2 -> Pure(i)
                   [] c % 6 = 3 -> LET g == IF c % 4 < 2 THEN <<7, 6>> ELSE <<9, 8>> IN FVec([n \in 1..NC |-> IF n = g[1] THEN w ELSE IF n = g[2] THEN F("0.1") ELSE IF n = 1 THEN F("0.9") (-) w ELSE Zero])
                   [] c % 6 = 4 -> FVec([n \in 1..NC |-> IF n = j THEN w ELSE IF n = m THEN F("0.3") ELSE IF n = i THEN F("0.7") (-) w ELSE Zero])
                   \* the same sum and the same molar mass
                   [] OTHER -> FVec([n \in 1..NC |-> IF n = i THEN A[n] (+) e ELSE IF n = j THEN A[n] (+) dj ELSE IF n = m THEN (A[n] (-) e) (-) dj ELSE Zero])
            near == One (+) F(Pick(sd, 5, <<"1e-2", "1e-4", "1e-6", "-1e-7", "-1e-8", "3e-9", "1e-12">>))
            what == Pick(sd, 6, <<"t", "t", "d", "p">>)
            t == Temp(sd, 7)
            d == Dens(sd, 8)
            p == SolveP(sd, 9)
            v == IF what = "t" THEN t ELSE IF what = "d" THEN d ELSE p
        IN  Scn("twins-" \o k, c, "R", <<New("1", k), SetX("1", A), Raw("1", "t", t), Raw("1", "d", d), Pressure("1"), Props("1"), MM("1"), Raw("1", "p", p), Density("1", "0"), Raw("1", "d", d),
                 SetX("1", B), Pick(sd, 10, <<Pressure("1"), MM("1"), Props("1")>>), Pick(sd, 11, <<Pressure("1"), Props("1")>>), Raw("1", "p", p), Density("1", "0"), Raw("1", "d", d), Props("1"),
                 Raw("1", what, v (.) near), Pressure("1"), Props("1"), Raw("1", "p", IF what = "p" THEN v (.) near ELSE p), Density("1", "0"), MM("1"), SetX("1", A), Pressure("1"), Density("1", "0"), Props("1")>>))
    \* to and fro
    \o Tup(Count(20), LAMBDA c : LET sd == Key(287 + q, c) IN
        Scn("swing-" \o k, c, "R", <<New("1", k), SetX("1", Comp(sd)), Raw("1", "t", Temp(sd, 1)), Raw("1", "d", Dens(sd, 2)), Raw("1", "p", SolveP(sd, 3)), Pressure("1"),
              <<"swing", "1", Pick(sd, 4, <<"20", "130", "300">>), Pick(sd, 5, <<"t", "x">>), Bi(Temp(sd, 6)), Pick(sd, 7, <<"pressure", "props", "density">>)>>, Props("1"), Density("1", "0"), MM("1")>>))
    \* counters of settings that come round
    \o Tup(9, LAMBDA c : LET sd == Key(278 + q, c)
                            m == <<"1", "3", "7", "15", "127", "255", "256", "1023", "65535">>[c]
                        IN
        Scn("round-", 10 * q + c, "R", <<New("1", k), SetX("1", NatGas(sd)), Raw("1", "t", Temp(sd, 1)), Raw("1", "d", Dens(sd, 2)), Raw("1", "p", SolveP(sd, 3)), Pressure("1"), Props("1"), MM("1"),
              SetX("1", Pair(2 + Rnd(sd, 4, NC - 1), 1, F("0.3"))), <<"spin", "1", m, "setx">>, Pressure("1"), MM("1"), Props("1"), Density("1", "0"),
              SetX("1", NatGas(sd)), <<"spin", "1", m, "setx">>, MM("1"), Density("1", "0"), Props("1"),
              SetX("1", Pure(1 + Rnd(sd, 5, NC))), <<"spin", "1", m, "setx">>, Props("1"), Pressure("1"), Raw("1", "t", Temp(sd, 6)), <<"spin", "1", m, "setx">>, Props("1"), Pressure("1")>>))
    \* many changes, each far below any threshold
    \o Tup(Count(24), LAMBDA c : LET sd == Key(117 + q, c)
                                     y == SolveComp(Key(118, c), 100)
                                     i == 1 + Rnd(sd, 1, NC)
                                     j == 1 + ((i + Rnd(sd, 2, NC - 1)) % NC)
                                 IN
        Scn("drift-" \o k, c, "R", <<New("1", k), SetX("1", Pair(i, j, F("0.5"))), Raw("1", "t", F("300")), Raw("1", "d", F("3")), Pressure("1"), Props("1"),
              <<"drift", "1", Pick(sd, 5, <<"x", "t">>), ToString(i - 1), ToString(j - 1), Bi(F(Pick(sd, 3, <<"9e-8", "9e-9", "9e-10", "9e-11", "9e-13">>))), Pick(sd, 4, <<"50", "1000", "5000">>)>>,
              Pressure("1"), Props("1"), MM("1"), Raw("1", "p", F("3000")), Density("1", "0")>>))
    \* a zero component appears, another disappears, at the same temperature
    \o Tup(Count(42), LAMBDA c : LET sd == Key(120 + q, c)
                                     i == 1 + (c % NC)
                                     j == 1 + ((i + Rnd(sd, 2, NC - 1)) % NC)
                                 IN
        Scn("appear-" \o k, c, "R", <<New("1", k), SetX("1", Pure(i)), Raw("1", "t", Temp(sd, 3)), Raw("1", "d", Dens(sd, 4)), Pressure("1"),
             SetX("1", Pair(i, j, Pick(sd, 5, <<F("0.5"), F("0.999"), F("0.9999999999")>>))), Pressure("1"), Props("1"), SetX("1", Pure(j)), Props("1"), Pressure("1"),
             SetX("1", Pure(i)), Pressure("1"), Raw("1", "t", Temp(sd, 6)), SetX("1", Pure(j)), Pressure("1"), SetX("1", RejectComp(sd)), Pressure("1"), Props("1")>>))))

Handles == <<"1", "2", "3", "4">>
MultiOps(sd, c, len, kinds, modes) ==
  CatN(Len(kinds), LAMBDA h : HistStart(Handles[h], kinds[h], RndMix(sd, h), c + h))
  \o CatN(len, LAMBDA j : LET h == 1 + Rnd(sd, 10000 + j, Len(kinds)) IN HistOps(Handles[h], kinds[h], RndMix(sd, h), c + h, j, modes))
  \o CatN(Len(kinds), LAMBDA h : <<Props(Handles[h])>>)
\* With the density calculation in its plain mode only, as the C interface has it.
Plain(list) == [i \in 1..Len(list) |-> [list[i] EXCEPT !.ops = [n \in 1..Len(list[i].ops) |->
                  IF list[i].ops[n][1] = "density" THEN Density(list[i].ops[n][2], "0") ELSE list[i].ops[n]]]]
\* Each handle on a thread of its own, with long runs of one calculation, all at once, in different states.
Race(sd, kinds) ==
  CatN(Len(kinds), LAMBDA h : LET hd == RndMix(sd, h) IN
    <<New(Handles[h], kinds[h]), SetX(Handles[h], IF Rnd(sd, 1, 2) = 0 THEN NatGas(sd) ELSE Comp(hd)), Raw(Handles[h], "d", Dens(hd, 1))>>
    \o CatN(5, LAMBDA n : <<Raw(Handles[h], "t", IF Rnd(sd, n, 2) = 0 THEN Temp(sd, n + 6) ELSE Temp(hd, 10 * n)), Raw(Handles[h], "p", SolveP(hd, 10 * n + 1)),
                          <<"spin", Handles[h], "1000", Pick(hd, n, <<"pressure", "props", "density", "props">>)>>,
                          \* between the same two temperatures on every thread
                          <<"swing", Handles[h], "1500", Pick(sd, n + 7, <<"t", "t", "t", "x">>), Bi(Temp(sd, n + 8)), Pick(sd, n + 9, <<"pressure", "props">>)>>, Raw(Handles[h], "d", Dens(hd, 10 * n + 2)), Props(Handles[h])>>
                        \o (IF n % 2 = 0 THEN <<SetX(Handles[h], Comp(RndMix(hd, n)))>> ELSE << >>)))
\* Each thread with many calculators, one after another.
Churn(sd, kinds) ==
  CatN(Len(kinds), LAMBDA h : LET hd == RndMix(sd, h) IN
    CatN(40, LAMBDA n : <<New(Handles[h], Pick(hd, n, kinds)), SetX(Handles[h], Comp(Key(285, (h + n) % 9))), Raw(Handles[h], "t", Temp(hd, n)), Raw(Handles[h], "d", Dens(hd, n + 50)),
                         IF n % 3 = 0 THEN Props(Handles[h]) ELSE Pressure(Handles[h]), <<"free", Handles[h]>>>>))
\* Bystanders: calculators x1, x2, ... among which the four are created at distances at which numbers may wrap.
Crowd(sd, c, k) ==
  LET n == <<64, 16, 256, 32, 128>>[1 + ((c \div 4) % 5)]
      at == <<1, 1 + n, 2 + n, 1 + 2 * (n \div 2) + (IF n < 256 THEN n ELSE 1)>>         \* when each of the four is created
      last == (IF n < 256 THEN 2 * n ELSE n + 3) + 1
      kinds == Pick(sd, 2, <<<<k, k, k, k>>, <<k, k, "D", "G">>>>)
      born(i) == CatN(4, LAMBDA h : IF at[h] = i THEN HistStart(Handles[h], kinds[h], RndMix(sd, h), c + h) ELSE << >>)
      other(i) == LET x == "x" \o ToString(i) IN
                  <<New(x, k)>> \o (IF i % 8 = 1 THEN <<SetX(x, Comp(RndMix(sd, i % 5))), Raw(x, "t", Temp(sd, i)), Raw(x, "d", Dens(sd, i + 500)), IF i % 16 = 1 THEN Pressure(x) ELSE Props(x)>> ELSE << >>)
  IN  CatN(last, LAMBDA i : born(i) \o (IF i \in {at[1], at[2], at[3], at[4]} THEN << >> ELSE other(i)))
      \o CatN(4, LAMBDA h : <<Raw(Handles[h], "t", Temp(sd, h + 40)), Raw(Handles[h], "d", Dens(sd, h + 50)), Pressure(Handles[h])>>)
      \o CatN(4, LAMBDA h : <<Pressure(Handles[h]), MM(Handles[h])>>) \o CatN(4, LAMBDA h : <<Props(Handles[5 - h])>>)
      \o CatN(30, LAMBDA j : LET h == 1 + Rnd(sd, 10000 + j, 4) IN HistOps(Handles[h], kinds[h], RndMix(sd, h), c + h, j, <<"0">>))
\* Calculators in the same state, or in nearly the same, that come and go.
Company(sd, c, kinds) ==
  LET x == Comp(RndMix(sd, 1))
      t == Temp(sd, 2)
      state(h, j) == <<SetX(Handles[h], IF Rnd(sd, j + h, 3) = 0 THEN Comp(RndMix(sd, j)) ELSE x), Raw(Handles[h], "t", t), Raw(Handles[h], "d", IF Rnd(sd, j + h + 20, 2) = 0 THEN Dens(sd, j) ELSE F("4")),
                       Raw(Handles[h], "p", F("3000"))>>
      calc(h, j) == <<Pick(sd, j + h + 40, <<Pressure(Handles[h]), Props(Handles[h]), Pressure(Handles[h]), Density(Handles[h], "0"), MM(Handles[h])>>)>>
      all(j) == CatN(4, LAMBDA h : IF h = 1 + (j % 4) THEN << >> ELSE calc(h, j))
  IN  CatN(4, LAMBDA h : <<New(Handles[h], kinds[h])>> \o state(h, 0) \o calc(h, 0) \o <<Pressure(Handles[h])>>)
      \o CatN(10, LAMBDA j : LET g == 1 + (j % 4) IN
            (IF Rnd(sd, j, 4) = 0 THEN <<Raw(Handles[g], "t", Temp(sd, j + 60)), Pressure(Handles[g])>> ELSE << >>)
            \o <<<<"free", Handles[g]>>>> \o all(j) \o (IF Rnd(sd, j + 80, 2) = 0 THEN all(j + 100) ELSE << >>)
            \o <<New(Handles[g], kinds[g])>> \o (IF Rnd(sd, j + 90, 2) = 0 THEN all(j + 200) ELSE << >>) \o state(g, j) \o <<Pressure(Handles[g]), Props(Handles[g])>> \o all(j + 300))
\* Many threads, each with a calculator: the four and bystanders.
ManyThreads(sd, c, kinds) ==
  CatN(4, LAMBDA h : LET hd == RndMix(sd, h) IN HistStart(Handles[h], kinds[h], hd, c + h)
    \o CatN(6, LAMBDA n : <<Raw(Handles[h], "t", Temp(hd, 10 * n)), Raw(Handles[h], "d", Dens(hd, 10 * n)), <<"spin", Handles[h], "10000", Pick(hd, n, <<"pressure", "pressure", "props">>)>>, Pressure(Handles[h]), Props(Handles[h])>>))
  \o CatN(20, LAMBDA i : LET x == "x" \o ToString(i) IN HistStart(x, kinds[1 + (i % 4)], RndMix(sd, 50 + i), c + i)
       \o CatN(6, LAMBDA j : HistOps(x, kinds[1 + (i % 4)], RndMix(sd, 50 + i), c + i, j, <<"0">>) \o <<<<"spin", x, "10000", Pick(sd, i + j, <<"pressure", "pressure", "props">>)>>>>))
\* Flag P, in a process of its own: what happens first in a process.  On several threads the first uses come together.
FirstTogether(sd, c, kinds) ==
  CatN(Len(kinds), LAMBDA h : LET w == IF h <= 4 THEN Handles[h] ELSE "x" \o ToString(h)
                                  hd == IF c % 2 = 0 THEN sd ELSE RndMix(sd, h) IN
    <<New(w, kinds[h]), SetX(w, Comp(hd)), Raw(w, "t", Temp(hd, 1)), Raw(w, "d", Dens(hd, 2)), Raw(w, "p", SolveP(hd, 3))>>
    \o <<Pick(sd, 4, <<Pressure(w), Props(w), Density(w, "0"), MM(w)>>), Pressure(w), Props(w), MM(w), Density(w, "0"), Raw(w, "t", Temp(hd, 5)), Pressure(w), SetX(w, Comp(RndMix(hd, 6))), Props(w)>>)
FirstAlone(nm, n, g, flags) ==
  Tup(Count(n), LAMBDA c : LET sd == Key(g, c)
                               k == IF c % 2 = 0 THEN "D" ELSE "G" IN
    Scn(nm, c, flags \o "P", HistStart("1", k, sd, c) \o <<Pick(sd, 4, <<Pressure("1"), Props("1"), Density("1", "0"), MM("1")>>)>> \o CatN(8, LAMBDA j : HistOps("1", k, sd, c, j, <<"0">>)) \o <<Props("1")>>))
H02Scenarios ==
  Tup(Count(40), LAMBDA c : Scn("first-", c, IF c % 3 = 0 THEN "STCP" ELSE "STP", FirstTogether(Key(299, c), c, <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "D", "D", "D", "D", "D", "D", "D">>, <<"G", "G", "G", "G", "G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>[1 + (c % 5)]))) \o
  Tup(Count(24), LAMBDA c : Scn("company-", c, IF c % 2 = 0 THEN "SC" ELSE "S", Company(Key(298, c), c, <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>[1 + ((c \div 2) % 3)]))) \o
  Tup(Count(10), LAMBDA c : Scn("crowd-", c, IF c % 2 = 0 THEN "SC" ELSE "S", Crowd(Key(291, c), c, <<"D", "G">>[1 + ((c \div 2) % 2)]))) \o
  Tup(Count(6), LAMBDA c : Scn("many-threads-", c, "ST", ManyThreads(Key(292, c), c, <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>[1 + (c % 3)]))) \o
  Tup(Count(60), LAMBDA c : Scn("inter-", c, IF c % 2 = 0 THEN "SC" ELSE "S", MultiOps(Key(125, c), c, 40, Pick(Key(126, c), 1, <<<<"D", "D">>, <<"G", "G">>, <<"D", "G", "D">>, <<"G", "D", "G", "G">>>>), IF c % 2 = 0 THEN <<"0">> ELSE <<"0", "0", "1", "2">>)))
  \o Tup(Count(40), LAMBDA c : Scn("threads-", c, "ST", MultiOps(Key(127, c), c, 60, Pick(Key(128, c), 1, <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>), <<"0", "1">>)))
  \o Plain(Tup(Count(30), LAMBDA c : Scn("threads-c-", c, "STC", MultiOps(Key(271, c), c, 60, Pick(Key(272, c), 1, <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>), <<"0">>))))
  \o Tup(Count(6), LAMBDA c : Scn("race-", c, "STC", Race(Key(284, c), <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>[1 + (c % 3)])))
  \o Tup(Count(6), LAMBDA c : Scn("churn-", c, "STC", Churn(Key(286, c), <<<<"D", "D", "D", "D">>, <<"G", "G", "G", "G">>, <<"D", "G", "D", "G">>>>[1 + (c % 3)])))
  \o Tup(Count(40), LAMBDA c : Scn("moved-", c, "SM", MultiOps(Key(129, c), c, 30, Pick(Key(130, c), 1, <<<<"D", "G">>, <<"G", "G", "D">>>>), <<"0", "1">>)))
H03Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(200), LAMBDA c : Hist("frame-" \o k, c, k, "", 25, Key(131 + q, c), <<"0", "0", "0", "1", "2">>))
    \o Tup(Count(30), LAMBDA c : SatChain("sat-", c, k, "", 6, Key(248 + q, c), LAMBDA i, x : CASE i % 3 = 0 -> <<Raw("1", "d", FNeg(LiquidDensity(x)))>> [] i % 3 = 1 -> <<Raw("1", "d", Zero)>> [] OTHER -> << >>,
                                           LAMBDA i : IF k = "D" \/ i % 2 = 0 THEN "0" ELSE "1"))
    \o Words("word-", k, "", 3, 64, 250 + q, Passes(1))))
  \o OddScenarios(133, 100, 15)

F01Scenarios ==
  Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(Count(120), LAMBDA c : Hist("c-" \o k, c, k, "C", 16, Key(140 + q, c), <<"0">>))
    \o Plain(Words("word-", k, "C", 2, 64, 252 + q, Passes(2)))
    \o Tup(Count(30), LAMBDA c : SatChain("sat-", c, k, "C", 6, Key(254 + q, c), LAMBDA i, x : CASE i % 3 = 0 -> <<Raw("1", "d", FNeg(LiquidDensity(x)))>> [] i % 3 = 1 -> <<Raw("1", "d", Zero)>> [] OTHER -> << >>, LAMBDA i : "0"))
    \o Tup(Count(40), LAMBDA c : LET sd == Key(142 + q, c) IN
        Scn("c-odd-" \o k, c, "C", <<New("1", k)>> \o CatN(10, LAMBDA j : SelectSeq(OddOps("1", k, sd, j), LAMBDA o : o[1] # "rawx" /\ ~(o[1] = "density" /\ o[3] # "0")))))
    \o Tup(NC, LAMBDA i : Scn("c-pure-" \o k, i, "C", <<New("1", k), SetX("1", Pure(i)), MM("1"), Raw("1", "t", F("400")), Raw("1", "d", F("2")), Pressure("1"), Props("1"), Raw("1", "p", F("5000")), Density("1", "0")>>))))
  \o Tup(Count(30), LAMBDA c : Scn("c-multi-", c, "C", MultiOps(Key(144, c), c, 40, Pick(Key(145, c), 1, <<<<"D", "D">>, <<"G", "G">>, <<"D", "G", "D">>, <<"G", "D", "G", "G">>>>), <<"0">>)))

(* Handles: creation, use and freeing in any order, reuse of a name after freeing, and null handles. *)
RECURSIVE HandleOps(_, _, _)
HandleOps(sd, j, live) ==      \* live: sequence of <<name, kind>>
  IF j = 0 THEN << >>
  ELSE LET r == Rnd(sd, j, 10)
           q == 1 + Rnd(sd, j + 500, IF Len(live) = 0 THEN 1 ELSE Len(live))
           k == Pick(sd, j + 600, <<"D", "G">>)
           names == <<"1", "2", "3", "4", "5", "6">>
           taken == {live[i][1] : i \in 1..Len(live)}
           free == SelectSeq(names, LAMBDA n : n \notin taken)
       IN  IF Len(live) = 0 \/ (r = 0 /\ Len(free) > 0)
           THEN <<New(free[1], k), SetX(free[1], Comp(Key(150, (sd % 1000) + j)))>> \o HandleOps(sd, j - 1, Append(live, <<free[1], k>>))
           ELSE IF r = 1 THEN <<<<"free", live[q][1]>>>> \o HandleOps(sd, j - 1, SelectSeq(live, LAMBDA n : n[1] # live[q][1]))
           ELSE HistOps(live[q][1], live[q][2], RndMix(sd, q), 1, j, <<"0">>) \o HandleOps(sd, j - 1, live)
FnSeq == SetToSeq(Functions)
NullFns == SetToSeq(Functions \ {"new"})
F02Scenarios ==
  Tup(Count(80), LAMBDA c : Scn("handles-", c, "", HandleOps(Key(151, c), 50, << >>)))
  \* the same with the client going from thread to thread
  \o Tup(Count(40), LAMBDA c : LET sd == Key(283, c)
                                   ops == HandleOps(Key(282, c), 40, << >>)
                               IN
       Scn("wander-", c, "", CatN(Len(ops), LAMBDA n : IF Rnd(sd, n, 4) = 0 THEN <<<<"on", "-", Pick(sd, n + 100, <<"0", "1", "2">>)>>, ops[n]>> ELSE <<ops[n]>>)))
  \o Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
       Scn("many-" \o k, q, "", CatN(300, LAMBDA i : <<New(ToString(i), k), SetX(ToString(i), Comp(Key(152, i))), Raw(ToString(i), "t", F("300")), Raw(ToString(i), "d", FI(1 + (i % 20)))>>)
         \o CatN(300, LAMBDA i : IF i % 7 = 0 THEN <<<<"free", ToString(((i * 11) % 300) + 1)>>, New(ToString(((i * 11) % 300) + 1), k)>> ELSE <<Props(ToString(((i * 7) % 300) + 1))>>)
         \o CatN(300, LAMBDA i : <<<<"free", ToString(((i * 11) % 300) + 1)>>>>)))
  \o Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
       Scn("again-" \o k, q, "", CatN(30, LAMBDA i : <<New("1", k), SetX("1", NatGas(Key(153, i))), Raw("1", "t", F("300")), Raw("1", "p", F("4000")), Density("1", "0"), Props("1"), <<"free", "1">>>>)))
  \o <<Scn("null", 0, "", Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
          [i \in 1..Len(NullFns) |-> <<"null", "-", k, NullFns[i]>>])))>>

Distinct21(sd) == Scaled(FVec([i \in 1..NC |-> FI(i + 3) (+) FRnd(sd, i)]), One)
F03Scenarios ==
  <<Scn("symbols", 0, "C", [i \in 1..(2 * Len(FnSeq)) |->
       <<"sym", "-", Prefix(IF i % 2 = 0 THEN "D" ELSE "G") \o FnSeq[(i + 1) \div 2]>>])>>
  \o Cat(Tup(2, LAMBDA q : LET k == <<"D", "G">>[q] IN
    Tup(NC, LAMBDA i : Scn("position-" \o k, i, "C",
      <<New("1", k), <<"compact", "1">> \o XArgs(Pure(i)), MM("1"), Raw("1", "t", Temp(Key(155, i), 1)), Raw("1", "d", F("2")), Pressure("1"),
        SetX("1", Pair(i, 1 + (i % NC), F("0.7"))), Pressure("1")>>))
    \o Tup(Count(20), LAMBDA i : Scn("record-" \o k, i, "C", <<New("1", k), <<"compact", "1">> \o XArgs(Distinct21(Key(156, i))), MM("1"),
        Raw("1", "t", Uni(Key(157, i), 1, "250", "500")), Raw("1", "p", Uni(Key(157, i), 2, "100", "9000")), Density("1", "0"), Props("1")>>))
    \o <<Scn("codes-" \o k, 0, "C", <<New("1", k), SetX("1", FVec([i \in 1..NC |-> Zero])), SetX("1", FVec([i \in 1..NC |-> One])), SetX("1", Pure(1)),
        Raw("1", "t", F("300")), Raw("1", "p", Zero), Density("1", "0"), Raw("1", "p", F("1000")), Density("1", "0"), Raw("1", "p", F("1e13")), Raw("1", "t", F("20")), Density("1", "0"), Raw("1", "t", Nan), Density("1", "0")>>)>>))

(* Walks through the state graph of module Calculator, as computed by the runner ($WALKS): one scenario for each, with
   numbers for its symbolic compositions (1 and 2 close together, 9 with other components), temperatures, densities. *)
AllWalks == IF "WALKS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.WALKS) ELSE << >>
WalksOf(g) == SelectSeq(AllWalks, LAMBDA w : w.graph = g)
Walks == LET ws == WalksOf("Calculator") IN [i \in 1..Len(ws) |-> ws[i].path]
SharingWalks == LET ws == WalksOf("Sharing") IN [i \in 1..Len(ws) |-> ws[i].path]
WalkScenario(c, w) ==
  LET sd == Key(160, c)
      i == 1 + (c % NC)
      j == 1 + ((i + Rnd(sd, 2, NC - 1)) % NC)
      m == 1 + ((i + 5 + Rnd(sd, 3, NC - 1)) % NC)
      k == <<"D", "G">>[1 + (c % 2)]
      w0 == Uni(sd, 4, "0.2", "0.8")
      dl == F(Pick(sd, 5, Deltas))
      y == Comp(Key(161, c))
      pair == Rnd(sd, 6, 2) = 0
      comp(v) == CASE v = "1" -> IF pair THEN Pair(i, j, w0) ELSE y
                   [] v = "2" -> IF pair THEN Pair(i, j, w0 (+) dl) ELSE Shifted(y, Key(162, c))
                   [] OTHER -> IF Rnd(sd, 7, 2) = 0 THEN Pair(j, m, w0) ELSE Comp(Key(163, c))
      t1 == Temp(sd, 8)
      temp(v) == CASE v = "1" -> t1 [] v = "2" -> t1 (.) (One (+) F(Pick(sd, 9, Deltas))) [] OTHER -> Temp(sd, 10)
      one(o, n) == CASE o[1] = "setx" -> <<SetX("1", comp(o[2]))>>
                     [] o[1] = "reject" -> <<SetX("1", RejectComp(RndMix(sd, n)))>>
                     [] o[1] = "t" -> <<Raw("1", "t", temp(o[2]))>>
                     [] o[1] = "d" -> <<Raw("1", "d", IF o[2] = "0" THEN Zero ELSE Dens(sd, n))>>
                     [] o[1] = "pressure" -> <<Pressure("1")>>
                     [] o[1] = "props" -> <<Props("1")>>
                     [] o[1] = "mm" -> <<MM("1")>>
                     [] o[1] = "density" -> <<Raw("1", "p", SolveP(sd, n)), Density("1", IF k = "D" THEN "0" ELSE Pick(sd, n + 1, <<"0", "0", "1", "2">>))>>
                     [] OTHER -> <<Raw("1", "p", Zero), Density("1", "0")>>
  IN  Scn("walk-", c, "R", <<New("1", k), Raw("1", "d", Dens(sd, 11))>> \o CatN(Len(w), LAMBDA n : one(w[n], 20 * n)))
WalkScenarios == Tup(Len(Walks), LAMBDA c : WalkScenario(c, Walks[c])) \o Tup(Len(Walks), LAMBDA c : [WalkScenario(c + 1, Walks[c]) EXCEPT !.id = @ \o "b"])

\* Walks through the state graph of module Sharing: two calculators, two inputs, two threads.
SharingScenario(c, w) ==
  LET sd == Key(260, c)
      kinds == <<<<"G", "G">>, <<"D", "D">>, <<"D", "G">>>>[1 + (c % 3)]
      y == SatComp(RndMix(sd, 1))
      t == Temp(sd, 2)
      comp(v) == IF v = "1" \/ Rnd(sd, 3, 4) = 0 THEN y ELSE IF Rnd(sd, 4, 2) = 0 THEN Shifted(y, RndMix(sd, 5)) ELSE Comp(RndMix(sd, 6))
      temp(v) == IF v = "1" \/ Rnd(sd, 3, 4) = 1 THEN t ELSE Temp(sd, 7)
      calc(h, n) == CASE Rnd(sd, n + 20, 8) \in 0..4 -> <<Pressure(h)>>
                      [] Rnd(sd, n + 20, 8) = 5 -> <<Raw(h, "d", Dens(sd, 9)), Props(h)>>
                      [] Rnd(sd, n + 20, 8) = 6 -> <<MM(h), Pressure(h)>>
                      [] OTHER -> <<Raw(h, "p", SolveP(sd, 10)), Density(h, "0"), Pressure(h)>>
      one(o, n) == <<<<"on", "-", o[4]>>, SetX(o[2], comp(o[3])), Raw(o[2], "t", temp(o[3]))>> \o calc(o[2], n)
  IN  Scn("share-", c, "SC", <<New("1", kinds[1]), New("2", kinds[2]), Raw("1", "d", Dens(sd, 8)), Raw("2", "d", Dens(sd, 9))>>
                             \o CatN(Len(w), LAMBDA n : one(w[n], 30 * n)))

\* Walks through the state graphs of module Provenance: every operation with every combination of fresh and left-over values.
ProvScenario(c, w, flags) ==
  LET sd == Key(290, c)
      k == w.kind
      y == SatComp(RndMix(sd, 1))
      y2 == CASE Rnd(sd, 2, 3) = 0 -> Shifted(y, RndMix(sd, 3)) [] Rnd(sd, 2, 3) = 1 -> NatGas(RndMix(sd, 3)) [] OTHER -> Comp(RndMix(sd, 3))
      t == <<Uni(sd, 4, "180", "450"), Temp(sd, 5)>>
      p == <<Log(sd, 6, "1", "20000"), SolveP(sd, 7)>>
      times(n, o) == Cardinality({i \in 1..n : w.path[i][1] = o}) % 2
      one(o, n) == CASE o[1] = "flipx" -> <<SetX("1", IF times(n, "flipx") = 1 THEN y2 ELSE y)>>
                     [] o[1] = "flipt" -> <<Raw("1", "t", t[1 + times(n, "flipt")])>>
                     [] o[1] = "flipp" -> <<Raw("1", "p", p[1 + times(n, "flipp")])>>
                     [] o[1] = "d" -> <<Raw("1", "d", CASE o[2] = "0" -> Zero [] o[2] = "a" -> Dens(sd, 8) [] o[2] = "b" -> Dens(sd, 9)
                                                        [] OTHER -> IF Rnd(sd, n, 2) = 0 THEN FNeg(LiquidDensity(y)) ELSE FNeg(Log(sd, n + 10, "1e-3", "20")))>>
                     [] o[1] = "reject" -> <<SetX("1", RejectComp(RndMix(sd, n)))>>
                     [] o[1] = "mm" -> <<MM("1")>> [] o[1] = "pressure" -> <<Pressure("1")>> [] o[1] = "props" -> <<Props("1")>>
                     [] o[1] = "density" -> IF flags = "C" THEN <<Density("1", "0")>> \o (IF o[2] = "0" THEN << >> ELSE <<Props("1")>>)   \* no modes in C
                                          ELSE <<Density("1", IF o[2] = "0" THEN "0" ELSE Pick(sd, n, <<"1", "1", "2">>))>>
                     [] o[1] = "low" -> <<Raw("1", "p", IF Rnd(sd, n, 2) = 0 THEN Zero ELSE F("-3")), Density("1", "0"), Raw("1", "p", p[1 + times(n, "flipp")])>>
                     [] OTHER -> <<Raw("1", "p", F("1e13")), Density("1", "0"), Raw("1", "p", p[1 + times(n, "flipp")])>>
  IN  Scn("prov-" \o k, c, flags, <<New("1", k), SetX("1", y), Raw("1", "t", t[1]), Raw("1", "p", p[1])>>
                                  \o CatN(Len(w.path), LAMBDA n : one(w.path[n], n)))
ProvScenarios(flags) == LET ws == WalksOf("Provenance") IN Tup(Len(ws), LAMBDA c : ProvScenario(c, ws[c], flags))

(* Walks through the state graph of module Lives: the client goes to the thread of the operation. *)
LivesScenario(c, w) ==
  LET sd == Key(303, c)
      th(o) == o[Len(o)]
      one(o, n) ==
        (IF n = 1 \/ th(w.path[IF n = 1 THEN 1 ELSE n - 1]) # th(o) THEN <<<<"on", "-", th(o)>>>> ELSE << >>)
        \o CASE o[1] = "create" -> <<New(o[2], o[3])>> \o (IF Rnd(sd, n, 4) = 0 THEN <<<<"null", "-", o[3], "free">>>> ELSE << >>)
             [] o[1] = "free" -> <<<<"free", o[2]>>>>
             [] OTHER -> CASE Rnd(sd, n, 5) = 0 -> <<SetX(o[2], Comp(RndMix(sd, n))), MM(o[2])>>
                           [] Rnd(sd, n, 5) = 1 -> <<Raw(o[2], "t", Temp(sd, n)), Raw(o[2], "d", Dens(sd, n)), Props(o[2])>>
                           [] Rnd(sd, n, 5) = 2 -> <<Raw(o[2], "p", SolveP(sd, n)), Density(o[2], "0")>>
                           [] Rnd(sd, n, 5) = 3 -> <<SetX(o[2], RejectComp(RndMix(sd, n))), Raw(o[2], "p", Zero), Density(o[2], "0")>>
                           [] OTHER -> <<SetX(o[2], NatGas(RndMix(sd, n))), Raw(o[2], "t", F("300")), Raw(o[2], "d", F("3")), Pressure(o[2]), Props(o[2])>>
  IN  Scn("lives-", c, "", CatN(Len(w.path), LAMBDA n : one(w.path[n], n)))
LivesScenarios == LET ws == WalksOf("Lives") IN Tup(Len(ws), LAMBDA c : LivesScenario(c, ws[c]))

(* Calculators that are moved in memory: in every third scenario, before some operations. *)
Moved(list) == Tup(Len(list), LAMBDA i :
  LET s == list[i]
      sd == Key(279, i)
  IN  IF i % 3 # 0 THEN s
      ELSE [s EXCEPT !.ops = CatN(Len(s.ops), LAMBDA n :
              LET o == s.ops[n] IN IF n > 1 /\ o[1] \in {"pressure", "props", "density", "mm"} /\ Rnd(sd, n, 3) = 0 THEN <<<<"move", o[2]>>, o>> ELSE <<o>>)])

(* Stored pressures of every kind, where they make no difference: before some pressure and property calculations. *)
Stray(list) == Tup(Len(list), LAMBDA i :
  LET s == list[i]
      sd == Key(289, i)
  IN  [s EXCEPT !.ops = CatN(Len(s.ops), LAMBDA n :
              LET o == s.ops[n] IN IF n > 1 /\ o[1] \in {"pressure", "props"} /\ Rnd(sd, n, 6) = 0
                                   THEN <<Raw(o[2], "p", CASE Rnd(sd, n + 1, 8) = 0 -> Nan [] Rnd(sd, n + 1, 8) = 1 -> Zero
                                                           [] Rnd(sd, n + 1, 8) = 2 -> FNeg(Log(sd, n + 2, "1e-9", "1e5")) [] OTHER -> Log(sd, n + 2, "1e-12", "1e6")), o>>
                                   ELSE <<o>>)])

(* Histories with many unobserved calculations in them: into every fifth scenario, after some calculation. *)
Spun(list) == Tup(Len(list), LAMBDA i :
  LET s == list[i]
      sd == Key(270, i)
      n == Len(s.ops) - Rnd(sd, 1, Len(s.ops))
      o == s.ops[n]
      \* around the sizes of counters
      times == Pick(sd, 2, <<"5", "7", "15", "16", "20", "31", "63", "70", "127", "128", "255", "256", "300", "300", "1100">>)
      kind == Pick(sd, 3, <<"all", "all", "density", "props", "pressure", "mm">>)
      again == Pick(sd, 4, <<"1", "2", "3", "7", "15", "31", "63", "127", "255", "255", "255", "256", "511", "1023", "4095", "65535">>)
  IN  IF i % 5 # 0 \/ o[1] \notin {"pressure", "props", "density", "mm", "setx"} THEN s
      ELSE [s EXCEPT !.ops = SubSeq(s.ops, 1, n)
              \o <<IF o[1] = "setx" THEN <<"spin", o[2], again, "setx">> ELSE <<"spin", o[2], times, kind>>>>
              \o SubSeq(s.ops, n + 1, Len(s.ops))])

Plan ==
  CASE Prop = "C01" -> C01Scenarios [] Prop = "C02" -> C02Scenarios [] Prop = "C03" -> C03Scenarios [] Prop = "C04" -> C04Scenarios \o Words("word-", "D", "C", 3, 64, 207, Passes(1)) \o Words("word-", "G", "", 3, 64, 208, Passes(1))
    [] Prop = "E01" -> EosScenarios("D", FALSE) \o Words("word-", "D", "", 3, 64, 201, Passes(1))
    [] Prop = "E02" -> EosScenarios("G", FALSE) \o Words("word-", "G", "", 3, 64, 202, Passes(1))
    [] Prop = "E03" -> EosScenarios("D", TRUE) \o Words("word-", "D", "", 3, 64, 203, Passes(1))
    [] Prop = "E04" -> EosScenarios("G", TRUE) \o Words("word-", "G", "", 3, 64, 204, Passes(1))
    [] Prop = "E05" -> E05Scenarios \o Words("word-", "D", "", 3, 64, 205, Passes(1)) \o Words("word-", "G", "", 3, 64, 206, Passes(1)) [] Prop = "E06" -> E06Scenarios [] Prop = "E07" -> E07Scenarios [] Prop = "E08" -> E08Scenarios
    [] Prop = "S01" -> S01Scenarios [] Prop = "S02" -> S02Scenarios [] Prop = "S03" -> S03Scenarios [] Prop = "S04" -> S04Scenarios
    [] Prop = "S05" -> S05Scenarios [] Prop = "S06" -> S06Scenarios
    [] Prop = "H01" -> H01Scenarios \o WalkScenarios \o Words("word-", "D", "R", 3, 64, 209, Passes(1)) \o Words("word-", "G", "R", 3, 64, 210, Passes(1)) [] Prop = "H02" -> H02Scenarios \o Tup(Len(SharingWalks), LAMBDA c : SharingScenario(c, SharingWalks[c])) [] Prop = "H03" -> H03Scenarios
    [] Prop = "F01" -> F01Scenarios [] Prop = "F02" -> LivesScenarios \o F02Scenarios [] Prop = "F03" -> F03Scenarios [] Prop = "X01" -> X01Scenarios

\* Long lives.
Marathon ==
  LET one(k, flags, modes) == <<Hist("marathon-", 1, k, flags, 700, Key(277, IF k = "D" THEN 1 ELSE 2), modes)>>
      both(flags) == one("D", flags, <<"0">>) \o one("G", flags, <<"0", "0", "0", "1", "2">>)
  IN  CASE Prop \in {"E01", "E03"} -> one("D", "", <<"0">>)
        [] Prop \in {"E02", "E04", "S04"} -> one("G", "", <<"0", "1", "2">>)
        [] Prop \in {"E05", "E07", "S03", "H03", "X01"} -> both("")
        [] Prop = "S01" -> Probed(both(""))
        [] Prop = "S05" -> both("Z") [] Prop = "H01" -> both("R") [] Prop = "C04" -> both("")
        [] Prop \in {"F01", "S02", "C02"} -> one("D", "C", <<"0">>) \o one("G", "C", <<"0">>)
        [] OTHER -> << >>
First == CASE Prop = "H01" -> FirstAlone("first-", 12, 300, "R") [] Prop = "F01" -> FirstAlone("first-", 12, 301, "C") [] OTHER -> << >>
Scenarios == First \o Marathon \o ProvScenarios(CASE Prop = "H01" -> "R" [] Prop = "F01" -> "C" [] OTHER -> "") \o IF Prop \in {"C01", "C03", "E06", "E08", "S06", "F03"} THEN Plan
                          ELSE IF Prop \in {"H01", "H02", "H03", "C02", "C04", "S05"} THEN Moved(Spun(Plan))
                          ELSE IF Prop \in {"E01", "E02", "E03", "E04", "E05", "E07", "X01"} THEN Stray(Spun(Plan)) ELSE Spun(Plan)
ASSUME JsonSerialize(IOEnv.OUT, Scenarios)
ASSUME PrintT(<<"scenarios", Len(Scenarios)>>)
VARIABLE done
Spec == done = TRUE /\ [][UNCHANGED done]_done
=============================================================================
