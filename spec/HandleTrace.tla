---------------------------- MODULE HandleTrace ----------------------------
(* Trace validation for property F02: recorded operations of a C client on the shared library (file $TRACE) against the
   handle rules of module Handles.  An event has
     op, h, k, a     operation, handle, kind and arguments;  ret: what was returned
     at              the address that new returned ("0": null)
     heap            <<blocks, bytes>> of the library before and after:  <<b0, y0, b1, y1>>
     bad             errors in the use of memory (freed twice, written after free or past the end, ...)
     oth             other handles whose values changed
     f, sf           values afterwards; the same in a run with the operations of this handle only
     fl              "" or how the process ended                                                                  *)
EXTENDS Handles, TLC, Json, IOUtils, SequencesExt
Trace == JsonDeserialize(IOEnv.TRACE)
LOCAL Events == FoldLeft(LAMBDA a, r : a + Len(r.ev) + 1, 0, Trace)

VARIABLES scen, pos, table, tally
vars == <<scen, pos, table, tally>>

Init == scen \in 1..Len(Trace) /\ pos = 0 /\ table = NoTable /\ tally = << >>

Must(cond, label) == {<<label, cond>>}
When(cond, set) == IF cond THEN set ELSE {}
Growth(e) == Amount(e.heap[3] - e.heap[1], e.heap[4] - e.heap[2])

Judge(e) ==
  IF e.fl # "" THEN Must(e.h \notin DOMAIN table /\ e.op # "new", "valid until freed")
  ELSE
  Must(e.bad = 0, "use of memory")
  \union Must(e.oth = << >>, "other handles unaffected")
  \union When(e.op = "new", Must(e.at # "0", "new handle")
                            \union Must(CanCreate(table, e.h, e.at), "a memory of its own"))
  \union When(e.op = "free", Must(Growth(e) = FreedGrowth(table, e.h), "everything freed"))
  \union When(e.op \notin {"new", "free", "null"} /\ e.h \in DOMAIN table, Must(e.f = e.sf, "values as if alone"))
  \union When(e.op = "null", Must(NullOutcomeOk(e.a[2], e.ret), "null handle"))
  \union When(e.op = "null" /\ DOMAIN table = {}, Must(Growth(e) = None, "null handle holds nothing"))

After(e) == IF e.fl # "" THEN table
            ELSE IF e.op = "new" THEN Created(table, e.h, e.k, e.at, Growth(e))
            ELSE IF e.op = "free" THEN Without(table, e.h)
            ELSE IF e.h \in DOMAIN table THEN Used(table, e.h, Growth(e)) ELSE table

Step(e) ==
  \E obligations \in {Judge(e)} :
  \E bad \in {{r[1] : r \in {q \in obligations : ~q[2]}}} :
  \E labels \in {{r[1] : r \in obligations}} :
  \E count \in {[l \in labels \union DOMAIN tally |->
                   (IF l \in DOMAIN tally THEN tally[l] ELSE 0) + (IF l \in labels THEN 1 ELSE 0)]} :
     /\ IF bad = {} THEN TRUE
        ELSE PrintT("VIOL " \o ToJson([id |-> Trace[scen].id, pos |-> pos + 1, op |-> e.op, h |-> e.h, k |-> e.k, bad |-> bad]))
     /\ IF pos + 1 < Len(Trace[scen].ev) THEN TRUE ELSE PrintT("DONE " \o ToJson(<<Trace[scen].id, count>>))
     /\ table' = After(e)
     /\ tally' = count

Next == /\ pos < Len(Trace[scen].ev)
        /\ pos' = pos + 1
        /\ scen' = scen
        /\ Step(Trace[scen].ev[pos + 1])
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").distinct = Events
=============================================================================
