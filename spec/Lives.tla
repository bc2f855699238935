------------------------------- MODULE Lives -------------------------------
(* The lives of C handles: created, used and freed in any order on several threads, so that names and memory come round.

   Memory says where a new handle lives and when freed memory goes back:
     "heap"      in memory of its own, which is made anew and given back when it is freed
     "recycle"   in the memory of the handle of its kind that was freed last, as it was left
     "home"      freed memory is given back only on the thread that created the handle
   Fresh says that a new handle has nothing of earlier ones, Returned that nothing is held when no handle lives; they hold
   for "heap" only.  The state graph (all that any of these could go by) gives histories that property F02 is tested
   with.                                                                                                            *)
EXTENDS Integers
CONSTANTS Memory, Names, Threads
Kinds == {"D", "G"}
VARIABLES live,     \* name -> kind, whether used, and thread of creation of the handle; kind "-": none
          left,     \* kind -> what the handle freed last left behind: "none", "clean" or "used"
          lost,     \* whether memory was not given back
          made, op  \* content of the handle created last
vars == <<live, left, lost, made, op>>
Absent == [k |-> "-", used |-> FALSE, th |-> 0]

Init == /\ live = [n \in Names |-> Absent]
        /\ left = [k \in Kinds |-> "none"]
        /\ lost = FALSE /\ made = "clean" /\ op = <<"new">>
New(n, k, th) ==
  /\ live[n] = Absent
  /\ made' = IF Memory = "recycle" /\ left[k] # "none" THEN left[k] ELSE "clean"
  /\ live' = [live EXCEPT ![n] = [k |-> k, used |-> made' = "used", th |-> th]]
  /\ left' = IF Memory = "recycle" THEN [left EXCEPT ![k] = "none"] ELSE left
  /\ lost' = lost /\ op' = <<"create", n, k, th>>
Use(n, th) ==
  /\ live[n] # Absent
  /\ live' = [live EXCEPT ![n].used = TRUE]
  /\ op' = <<"use", n, th>> /\ UNCHANGED <<left, lost, made>>
Free(n, th) ==
  /\ live[n] # Absent
  /\ live' = [live EXCEPT ![n] = Absent]
  /\ left' = [left EXCEPT ![live[n].k] = IF live[n].used THEN "used" ELSE "clean"]
  /\ lost' = (lost \/ (Memory = "home" /\ th # live[n].th))
  /\ op' = <<"free", n, th>> /\ made' = made
Next == \E n \in Names, th \in Threads : Use(n, th) \/ Free(n, th) \/ \E k \in Kinds : New(n, k, th)
Spec == Init /\ [][Next]_vars

Fresh == made = "clean"
Returned == (\A n \in Names : live[n] = Absent) => ~lost
OthersKept == [][\A n, m \in Names : live'[n] # live[n] /\ live'[m] # live[m] => n = m]_vars
=============================================================================
