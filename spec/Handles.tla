------------------------------ MODULE Handles ------------------------------
(* Handles of the C interface and the memory behind them.

   A table maps every live handle to its kind, its address and what it holds of the heap; amounts are pairs
   <<blocks, bytes>>.  The operators below are the transition rules; HandlesMC checks them as a state machine, and
   HandleTrace (through P_F02) checks recorded executions of the shared library against them.                     *)
EXTENDS Integers, Sequences, FiniteSets

NoTable == << >>
Amount(b, y) == <<b, y>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
None == <<0, 0>>

With(table, h, r) == [g \in DOMAIN table \union {h} |-> IF g = h THEN r ELSE table[g]]
Without(table, h) == [g \in DOMAIN table \ {h} |-> table[g]]

\* A new handle: a non-null address that no live handle has.
CanCreate(table, h, at) == h \notin DOMAIN table /\ at # "0" /\ \A g \in DOMAIN table : table[g].at # at
Created(table, h, k, at, grow) == With(table, h, [k |-> k, at |-> at, held |-> grow])
\* Using a handle: what the heap grows by belongs to that handle.
Used(table, h, grow) == With(table, h, [table[h] EXCEPT !.held = Plus(@, grow)])
\* Freeing a handle gives back everything it holds.
FreedGrowth(table, h) == Minus(None, table[h].held)

RECURSIVE Held(_)
Held(table) == IF DOMAIN table = {} THEN None
               ELSE LET h == CHOOSE g \in DOMAIN table : TRUE IN Plus(table[h].held, Held(Without(table, h)))

(* A function called with a null handle: free does nothing, all others end the process, without touching memory. *)
NullOutcomeOk(fn, outcome) == IF fn = "free" THEN outcome = "returned"
                              ELSE outcome \notin {"returned", "signal11", "signal7", "signal14"}
=============================================================================
