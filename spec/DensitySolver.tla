--------------------------- MODULE DensitySolver ---------------------------
(* The AGA8 density search: a Newton iteration in ln(pressure) over ln(volume).

   The control of the search is given by the two operators Begin and After; they do not mention numbers, so that
   SolverMC checks them for every possible behaviour of the equation of state.  Search (at the end) runs the same
   control with the real equations.                                                                           *)
EXTENDS Integers, F64, Components

Kinds == {"D", "G"}
MaxIt(k) == IF k = "D" THEN 20 ELSE 50
MaxRestarts(k) == IF k = "D" THEN 0 ELSE 3
ForcedRestart(k, it) == k = "G" /\ it \in {20, 30, 40}

Control == [it : 1..51, nfail : 0..3]
Start == [it |-> 1, nfail |-> 0]

(* At the beginning of iteration c.it: go on from the current volume, restart elsewhere, or give up. *)
Begin(k, c, inrange) ==
  IF c.it > MaxIt(k) THEN "fail"
  ELSE IF inrange /\ ~ForcedRestart(k, c.it) THEN "go"
  ELSE IF c.nfail < MaxRestarts(k) THEN "restart"
  ELSE "fail"

(* After pressure and its derivative were calculated: nudge the volume when either is not positive, otherwise make a
   Newton step, which ends the search when it was a small one. *)
After(good, small) == IF ~good THEN "nudge" ELSE IF small THEN "found" ELSE "newton"

Advance(c, restarted) == [it |-> c.it + 1, nfail |-> IF restarted THEN c.nfail + 1 ELSE c.nfail]

\* Restart n begins at this multiple of the pseudo-critical density.
RestartText == <<"3", "2.5", "2">>
RestartAt(n) == F(RestartText[n])

\* Size of a nudge of ln(volume) in iteration it, as a fraction of 0.1.
NudgeParts(k, it) == IF k = "D" THEN 1 ELSE IF it <= 5 THEN 1 ELSE IF it <= 10 \/ it >= 20 THEN 2 ELSE 10

(* ------------------------------------------------ with numbers ------------------------------------------------ *)
D == INSTANCE DetailEos
G == INSTANCE GergEos

GasConstant(k) == IF k = "D" THEN D!RD ELSE G!RG
PMin == F("1e-15")
LOCAL DMin == F("-1e-15")

\* Pressure and dP/dD at density d of the fluid e (made by Fluid).
Fluid(k, x, t) == [k |-> k, x |-> x, t |-> t, c |-> IF k = "D" THEN D!DTerms(x) ELSE G!GTerms(x, t)]
Terms(e, d) == IF e.k = "D" THEN D!DResTerms(e.c, e.t, d) ELSE G!GResTerms(e.c, d)
PandSlope(e, d) == LET r  == D!Residual1(Terms(e, d))
                       rt == GasConstant(e.k) (.) e.t
                   IN  [p |-> d (.) rt (.) (One (+) r.a01), s |-> rt (.) (One (+) (Two (.) r.a01) (+) r.a02)]

IdealDensity(k, p, t) == (p (/) GasConstant(k)) (/) t

\* The density from which the search starts, given the stored density d0 and the GERG mode.
StartDensity(k, x, t, p, d0, mode) ==
  IF FIsNaN(d0) \/ FLt(DMin, d0)
  THEN IF k = "G" /\ mode = 2 THEN F("3") (.) G!PseudoCriticalDensity(x) ELSE IdealDensity(k, p, t)
  ELSE FAbs(d0)

LOCAL InRange(lv) == FLe(F("-7"), lv) /\ FLe(lv, F("100"))
LOCAL Small(dv) == FLt(FAbs(dv), F("1e-7"))

RECURSIVE Iterate(_, _, _, _, _)
Iterate(e, p, dcx, c, lv) ==
  LET b == Begin(e.k, c, InRange(lv))
  IN  IF b = "fail" THEN [out |-> "fail", d |-> IdealDensity(e.k, p, e.t), its |-> c.it, nfail |-> c.nfail]
      ELSE LET restarted == b = "restart"
               lv0 == IF restarted THEN FNeg(FLn(RestartAt(c.nfail + 1) (.) dcx)) ELSE lv
               d   == FExp(FNeg(lv0))
               r   == PandSlope(e, d)
               good == ~(FLt(r.s, PMin) \/ FLt(r.p, PMin))
               dv  == ((FLn(r.p) (-) FLn(p)) (.) r.p) (/) FNeg(d (.) r.s)
               a   == After(good, Small(dv))
               nudge == F("0.1") (/) FI(NudgeParts(e.k, c.it))
               lv1 == IF a = "nudge"
                      THEN IF e.k = "G" /\ FLt(dcx, d) THEN lv0 (-) nudge ELSE lv0 (+) nudge
                      ELSE lv0 (-) dv
           IN  IF a = "found"
               THEN [out |-> "ok", d |-> FExp(FNeg(lv1)), its |-> c.it, nfail |-> IF restarted THEN c.nfail + 1 ELSE c.nfail]
               ELSE Iterate(e, p, dcx, Advance(c, restarted), lv1)

\* The plain search on fluid e from density d.
SearchFrom(e, p, d) ==
  Iterate(e, p, IF e.k = "G" THEN G!PseudoCriticalDensity(e.x) ELSE Zero, Start, FNeg(FLn(d)))

(* The root, where it does not depend on rounding (the same for pressures that differ by 1e-9); otherwise, and where the
   search fails, "open".                                                                                            *)
RobustSearch(e, p, d, follow) ==      \* follow: the start density follows the pressure (ideal gas start)
  LET up   == One (+) F("1e-9")
      r0   == SearchFrom(e, p, d)
      r1   == SearchFrom(e, p (.) up, IF follow THEN d (.) up ELSE d)
      r2   == SearchFrom(e, p (/) up, IF follow THEN d (/) up ELSE d)
      near(a, b) == FLe(FAbs(a (-) b), F("1e-6") (.) FAbs(a))
  IN  IF r0.out = "ok" /\ r1.out = "ok" /\ near(r0.d, r1.d) /\ r2.out = "ok" /\ near(r0.d, r2.d) THEN r0
      ELSE [r0 EXCEPT !.out = "open"]
=============================================================================
