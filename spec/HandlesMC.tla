----------------------------- MODULE HandlesMC -----------------------------
(* The handle rules as a state machine, checked for all histories over a few handles, addresses and heap sizes:
   the heap is always what the live handles hold, addresses stay distinct, and when every handle is freed nothing is
   left; a call with a null handle ends the process or changes nothing.                                          *)
EXTENDS Handles
CONSTANTS Names, Addresses, MaxHeld
VARIABLES table, heap, ended
vars == <<table, heap, ended>>

Grows == {None, <<1, 2>>, <<0, 1>>, <<1, 1>>}
Small(t) == \A h \in DOMAIN t : t[h].held[2] <= MaxHeld

Init == table = NoTable /\ heap = None /\ ended = FALSE
New == \E h \in Names, k \in {"D", "G"}, at \in Addresses, g \in Grows \ {None} :
         /\ CanCreate(table, h, at)
         /\ table' = Created(table, h, k, at, g)
         /\ heap' = Plus(heap, g) /\ ended' = ended
Use == \E h \in DOMAIN table, g \in Grows \union {<<0, -1>>} :
         /\ Plus(table[h].held, g)[2] >= Plus(table[h].held, g)[1] /\ Plus(table[h].held, g)[1] >= 1
         /\ table' = Used(table, h, g)
         /\ Small(table')
         /\ heap' = Plus(heap, g) /\ ended' = ended
Free == \E h \in DOMAIN table :
         /\ heap' = Plus(heap, FreedGrowth(table, h))
         /\ table' = Without(table, h) /\ ended' = ended
NullFree == UNCHANGED vars
NullCall == ended' = TRUE /\ UNCHANGED <<table, heap>>
Next == ~ended /\ (New \/ Use \/ Free \/ NullFree \/ NullCall)
Spec == Init /\ [][Next]_vars

HeapIsHeld == heap = Held(table)
NoLeak == DOMAIN table = {} => heap = None
Distinct == \A g, h \in DOMAIN table : g # h => table[g].at # table[h].at
OthersKept == [][\A h \in DOMAIN table \intersect DOMAIN table' :
                   table'[h].at = table[h].at /\ table'[h].k = table[h].k
                   /\ (DOMAIN table' # DOMAIN table => table'[h] = table[h])]_vars
=============================================================================
