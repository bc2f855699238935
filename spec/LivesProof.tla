----------------------------- MODULE LivesProof -----------------------------
(* Fresh and returned, for any number of handles and threads and histories of any length, when every handle has memory of
   its own.                                                                                                          *)
EXTENDS Lives, TLAPS
ASSUME Heap == Memory = "heap"

Inv == made = "clean" /\ lost = FALSE

THEOREM AlwaysFresh == Spec => [](Fresh /\ Returned)
<1>1. Init => Inv
  BY DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. ASSUME NEW n \in Names, NEW th \in Threads, NEW k \in Kinds, New(n, k, th) PROVE Inv'
    BY <2>1, Heap DEF New, Inv
  <2>2. ASSUME NEW n \in Names, NEW th \in Threads, Use(n, th) PROVE Inv'
    BY <2>2 DEF Use, Inv
  <2>3. ASSUME NEW n \in Names, NEW th \in Threads, Free(n, th) PROVE Inv'
    BY <2>3, Heap DEF Free, Inv
  <2>4. CASE UNCHANGED vars
    BY <2>4 DEF vars, Inv
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1>3. Inv => Fresh /\ Returned
  BY DEF Inv, Fresh, Returned
<1> QED
  BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
