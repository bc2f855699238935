---------------------------- MODULE SharingProof ----------------------------
(* Correct, for any number of calculators, threads and values and histories of any length, when every calculator keeps
   its intermediate results itself.                                                                                *)
EXTENDS Sharing, TLAPS
ASSUME Own == Storage = "own"

Inv == own \in [Calcs -> Values \union {0}] /\ out[1] = out[2]

THEOREM AlwaysCorrect == Spec => []Correct
<1>1. Init => Inv
  BY DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. ASSUME NEW c \in Calcs, NEW v \in Values, NEW th \in Threads, Use(c, v, th) PROVE Inv'
    BY <2>1, Own DEF Use, Inv
  <2>2. CASE UNCHANGED vars
    BY <2>2 DEF vars, Inv
  <2> QED
    BY <2>1, <2>2 DEF Next
<1>3. Inv => Correct
  BY DEF Inv, Correct
<1> QED
  BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
