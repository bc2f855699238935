----------------------------- MODULE Concurrent -----------------------------
(* Two calculators used by two threads, in steps as small as one access to the remembered terms.

   Storage = "own": every calculator has its own memory.  Storage = "shared": one memory for all (a static, say).
   Each calculation compares the remembered inputs with the current ones, recomputes terms where they differ, and makes
   its result from them, in separate steps.  Independent says that every calculator gets the results that it would get
   alone; it holds for every interleaving with memory of their own, and fails with shared memory even where each
   single step is atomic.                                                                                        *)
EXTENDS Integers, Sequences
CONSTANTS Storage, Values, Rounds
Calcs == {1, 2}
VARIABLES input, mem, pc, made, done
vars == <<input, mem, pc, made, done>>

Slot(c) == IF Storage = "own" THEN c ELSE 1
Init == /\ input \in [Calcs -> Values]
        /\ mem = [c \in Calcs |-> 0]
        /\ pc = [c \in Calcs |-> "idle"]
        /\ made = [c \in Calcs |-> 0]
        /\ done = [c \in Calcs |-> 0]
Set(c) == /\ pc[c] = "idle" /\ done[c] < Rounds
          /\ \E v \in Values : input' = [input EXCEPT ![c] = v]
          /\ UNCHANGED <<mem, pc, made, done>>
Compare(c) == /\ pc[c] = "idle" /\ done[c] < Rounds
              /\ pc' = [pc EXCEPT ![c] = IF mem[Slot(c)] = input[c] THEN "use" ELSE "fill"]
              /\ UNCHANGED <<input, mem, made, done>>
Fill(c) == /\ pc[c] = "fill"
           /\ mem' = [mem EXCEPT ![Slot(c)] = input[c]]
           /\ pc' = [pc EXCEPT ![c] = "use"]
           /\ UNCHANGED <<input, made, done>>
Use(c) == /\ pc[c] = "use"
          /\ made' = [made EXCEPT ![c] = mem[Slot(c)]]
          /\ pc' = [pc EXCEPT ![c] = "idle"]
          /\ done' = [done EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<input, mem>>
Next == \E c \in Calcs : Set(c) \/ Compare(c) \/ Fill(c) \/ Use(c)
Spec == Init /\ [][Next]_vars

Independent == [][\A c \in Calcs : done'[c] # done[c] => made'[c] = input[c]]_vars
\* A step of one calculator changes nothing of the other.
Separate == [][\A c \in Calcs : (pc'[c] # pc[c] \/ input'[c] # input[c]) =>
                 \A b \in Calcs \ {c} : input'[b] = input[b] /\ pc'[b] = pc[b] /\ made'[b] = made[b]
                                        /\ (Storage = "own" => mem'[b] = mem[b])]_vars
=============================================================================
