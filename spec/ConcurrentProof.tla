--------------------------- MODULE ConcurrentProof ---------------------------
(* Independent, for any set of values and any number of rounds, when every calculator has its own memory. *)
EXTENDS Concurrent, TLAPS
ASSUME Own == Storage = "own"
ASSUME Numbers == Rounds \in Nat

Inv == /\ mem \in [Calcs -> Values \union {0}]
       /\ input \in [Calcs -> Values]
       /\ pc \in [Calcs -> {"idle", "fill", "use"}]
       /\ made \in [Calcs -> Values \union {0}]
       /\ done \in [Calcs -> Nat]
       /\ \A c \in Calcs : pc[c] = "use" => mem[c] = input[c]

LEMMA Initially == Init => Inv
  BY DEF Init, Inv

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Own, Numbers DEF Inv, Slot
<1>1. ASSUME NEW c \in Calcs, Set(c) PROVE Inv'
  BY <1>1 DEF Set
<1>2. ASSUME NEW c \in Calcs, Compare(c) PROVE Inv'
  BY <1>2 DEF Compare
<1>3. ASSUME NEW c \in Calcs, Fill(c) PROVE Inv'
  BY <1>3 DEF Fill
<1>4. ASSUME NEW c \in Calcs, Use(c) PROVE Inv'
  BY <1>4 DEF Use
<1>5. CASE UNCHANGED vars
  BY <1>5 DEF vars
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

LEMMA Right == Inv /\ [Next]_vars => [\A c \in Calcs : done'[c] # done[c] => made'[c] = input[c]]_vars
<1> SUFFICES ASSUME Inv, Next PROVE \A c \in Calcs : done'[c] # done[c] => made'[c] = input[c]
  BY DEF vars
<1> USE Own, Numbers DEF Inv, Slot
<1> QED
  BY DEF Next, Set, Compare, Fill, Use

THEOREM AlwaysIndependent == Spec => Independent
  BY Initially, Step, Right, PTL DEF Spec, Independent
=============================================================================
