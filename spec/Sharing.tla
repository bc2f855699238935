------------------------------ MODULE Sharing ------------------------------
(* Calculators that are moved between threads, one operation at a time.

   An operation Use(c, v, th) gives calculator c the input v (a composition and a temperature) and calculates with it on
   thread th.  Terms are computed again when the input differs from the one that the calculator remembers; otherwise
   they are taken from where Storage says that they are kept:
     "own"      in the calculator
     "static"   in a place of which there is one
     "thread"   in a place of which every thread has one, which knows whose terms it holds; in the calculator otherwise
   Correct says that the result is made from the input of this operation; it holds for "own" only.  The state graph
   (all that any of these places could hold) gives the histories that property H02 is tested with.                *)
EXTENDS Integers
CONSTANTS Storage, Calcs, Values, Threads
VARIABLES own,      \* calculator -> value remembered
          tl,       \* thread -> <<calculator, value>> of its last calculation
          last,     \* thread of the last calculation
          out, op
vars == <<own, tl, last, out, op>>

Init == /\ own = [c \in Calcs |-> 0]
        /\ tl = [th \in Threads |-> <<0, 0>>]
        /\ last = 0
        /\ out = <<0, 0>>
        /\ op = <<"new">>
Use(c, v, th) ==
  LET made == IF own[c] # v THEN v
              ELSE CASE Storage = "own" -> own[c]
                     [] Storage = "static" -> tl[last][2]
                     [] OTHER -> IF tl[th][1] = c THEN tl[th][2] ELSE own[c]
  IN  /\ own' = [own EXCEPT ![c] = v]
      /\ tl' = [tl EXCEPT ![th] = <<c, made>>]
      /\ last' = th
      /\ out' = <<v, made>>
      /\ op' = <<"use", c, v, th>>
Next == \E c \in Calcs, v \in Values, th \in Threads : Use(c, v, th)
Spec == Init /\ [][Next]_vars
Correct == out[1] = out[2]
=============================================================================
