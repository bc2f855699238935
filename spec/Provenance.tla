----------------------------- MODULE Provenance -----------------------------
(* What the values that a calculator shows were made from.  Inputs are symbols; of the results, the molar mass, the
   compressibility factor and the others are distinguished, because Interface!Writes lets operations write them
   separately.  Every result carries the inputs that it was made from, so "of one and the same state", "left over",
   "of the current inputs" are conditions on states.  The walks through this graph (one for each kind) take every
   operation in every combination of fresh and left-over values.

   Policy: "all"        every operation writes what Interface says
           "lazymass"   the property calculation keeps a molar mass that is there
           "lazyz"      the property calculation keeps a compressibility factor that pressure has left at this density
           "early"      a density calculation that finds its start unchanged writes nothing                        *)
EXTENDS Integers, Sequences, FiniteSets, Interface
CONSTANTS Policy, Kind, Dens
VARIABLES x, t, d, p,     \* inputs: composition and temperature 1 or 2, density, pressure
          mm, z, pr,      \* provenance of molar mass, compressibility factor, and the others
          op
vars == <<x, t, d, p, mm, z, pr, op>>

None == << >>
Other(v) == 3 - v
\* densities: "0", "a", "b" as set; "est" a negative one (Dens: those that are set); "f" found for the present composition and temperature, "old" found
\* for others; "ideal" the ideal-gas density left by a failure
Aged(q) == IF q # None /\ q[3] \in {"f", "ideal"} THEN <<q[1], q[2], "old">> ELSE q

Init == /\ x = 1 /\ t = 1 /\ d = "0" /\ p = 1
        /\ mm = 0 /\ z = None /\ pr = None /\ op = <<"new">>

FlipX == /\ x' = Other(x) /\ op' = <<"flipx">> /\ UNCHANGED <<t, d, p, mm, z, pr>>
FlipT == /\ t' = Other(t) /\ op' = <<"flipt">> /\ UNCHANGED <<x, d, p, mm, z, pr>>
FlipP == /\ p' = Other(IF p = 3 THEN 1 ELSE p) /\ op' = <<"flipp">> /\ UNCHANGED <<x, t, d, mm, z, pr>>
SetD(v) == /\ d' = v /\ op' = <<"d", v>> /\ UNCHANGED <<x, t, p, mm, z, pr>>
Reject == /\ op' = <<"reject">> /\ UNCHANGED <<x, t, d, p, mm, z, pr>>

Here == <<x, t, d>>
MolarMass == /\ mm' = x /\ op' = <<"mm">> /\ UNCHANGED <<x, t, d, p, z, pr>>
Pressure == /\ z' = Here /\ op' = <<"pressure">> /\ UNCHANGED <<x, t, d, p, mm, pr>>
Props == /\ mm' = IF Policy = "lazymass" /\ mm # 0 THEN mm ELSE x
         /\ z' = IF Policy = "lazyz" /\ z # None /\ z[3] = d THEN z ELSE Here
         /\ pr' = Here
         /\ p' = IF Kind = "D" THEN 3 ELSE p
         /\ op' = <<"props">> /\ UNCHANGED <<x, t, d>>
Modes == IF Kind = "D" THEN {"0"} ELSE {"0", "1"}
\* a density calculation that succeeds; with the phase checks all properties are left calculated
Density(mode) ==
  LET keep == Policy = "early" /\ d = "f"
  IN  /\ d' = IF keep THEN d ELSE "f"
      /\ z' = IF keep THEN z ELSE <<x, t, "f">>
      /\ mm' = IF mode = "0" \/ keep THEN mm ELSE x
      /\ pr' = IF mode = "0" \/ keep THEN Aged(pr) ELSE <<x, t, "f">>
      /\ op' = <<"density", mode>> /\ UNCHANGED <<x, t, p>>
\* one that does not: the pressure is too low, or nothing is found (z is left as it happens to be)
Low == /\ d' = "0" /\ op' = <<"low">> /\ UNCHANGED <<x, t, p, mm, z, pr>>
Fail == /\ d' = "ideal" /\ z' = None /\ pr' = Aged(pr) /\ op' = <<"fail">> /\ UNCHANGED <<x, t, p, mm>>

Next == \/ FlipX \/ FlipT \/ FlipP \/ Reject \/ (\E v \in Dens : SetD(v))
        \/ MolarMass \/ Pressure \/ Props \/ (\E m \in Modes : Density(m)) \/ Low \/ Fail
Spec == Init /\ [][Next]_vars

\* All values reported after a property calculation, or after a density calculation with phase checks, are of one state,
\* the current one.
OneState == op[1] = "props" \/ op = <<"density", "1">> => mm = x /\ z = Here /\ pr = Here
MassFresh == op[1] \in {"mm", "props"} => mm = x
ZFresh == op[1] = "pressure" => z = Here
\* the density found is at the current composition and temperature, whatever was there before
FoundIsCurrent == op[1] = "density" => d = "f" /\ z = Here
\* Nothing else changes: what Interface!Writes does not name keeps its provenance.
Named(o) == Writes(IF o[1] \in {"low", "fail"} THEN "density" ELSE o[1], Kind, IF o[1] = "density" THEN o[2] ELSE "0")
Frame == [][/\ mm' # mm => "mm" \in Named(op')
            /\ z' # z => "z" \in Named(op')
            /\ pr' # pr /\ pr' # Aged(pr) => {"u", "cv", "w"} \subseteq Named(op')
            /\ (op'[1] \in CalcOps => x' = x /\ t' = t)
            /\ (p' # p => op'[1] = "flipp" \/ "p" \in Named(op'))]_vars

\* Combinations of fresh and left-over values (walks cover each with every operation).  Which of two compositions or
\* temperatures is meant makes no difference, so that states may be identified up to these exchanges.
Rel(q) == IF q = None THEN << >> ELSE <<q[1] = x, q[2] = t, q[3]>>
View == <<d, p = 3, IF mm = 0 THEN "none" ELSE IF mm = x THEN "same" ELSE "other", Rel(z), Rel(pr), op>>
=============================================================================
