-------------------------- MODULE CalculatorProof --------------------------
(* Correct, for any sets of compositions, temperatures and densities and histories of any length, when
   terms are used again only for the very same inputs.  (CalculatorMC checks the same for small sets, and that the other
   policies fail.)                                                                                                   *)
EXTENDS Calculator, TLAPS
ASSUME Exactly == Policy = "exact"

Inv == /\ xm = xc
       /\ tc = <<tm, tc[2]>>
       /\ tc[2] = xc \/ tm = 0
       /\ out # NoResult /\ Meaningful => out = [x |-> x, t |-> t, tx |-> x]

LEMMA Initially == Init => Inv
  BY DEF Init, Inv, NoResult, Meaningful

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE DEF Inv, NoResult, Meaningful, inputs, memory
<1>1. ASSUME NEW v \in Comps, SetX(v) PROVE Inv'
  BY <1>1 DEF SetX
<1>2. ASSUME NEW v \in Temps, SetT(v) PROVE Inv'
  BY <1>2 DEF SetT
<1>3. ASSUME NEW v \in Densities, SetD(v) PROVE Inv'
  BY <1>3 DEF SetD
<1>4. CASE Reject
  BY <1>4 DEF Reject
<1>5. ASSUME Remember, UNCHANGED <<x, t>> PROVE Inv'
  BY <1>5, Exactly DEF Remember, KeepX, KeepT
<1>6. CASE Pressure
  BY <1>5, <1>6 DEF Pressure
<1>7. CASE Props
  BY <1>5, <1>7 DEF Props
<1>8. CASE MolarMass
  BY <1>8 DEF MolarMass
<1>9. CASE Density
  BY <1>5, <1>9 DEF Density
<1>10. CASE DensityLow
  BY <1>10 DEF DensityLow
<1>11. CASE UNCHANGED vars
  BY <1>11 DEF vars
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11 DEF Next

THEOREM AlwaysCorrect == Spec => []Correct
<1>1. Inv => Correct
  BY DEF Inv, Correct
<1> QED
  BY Initially, Step, <1>1, PTL DEF Spec
=============================================================================
