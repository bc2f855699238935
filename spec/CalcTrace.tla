----------------------------- MODULE CalcTrace -----------------------------
(* Trace validation: the recorded operations of the implementation (file $TRACE), one behaviour for each scenario, are
   replayed on the observable state of a set of calculators, and every step is judged by the conditions of property
   $PROP in module Contract.  Violations are printed; a step that violates something is still taken, so that the rest
   of the trace is judged as well.  At the end of a scenario the number of obligations of each kind that were judged in
   it is printed.  Complete (the postcondition) says that every recorded event was reached.                         *)
EXTENDS Contract, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
LOCAL Events == FoldLeft(LAMBDA a, r : a + Len(r.ev) + 1, 0, Trace)

VARIABLES scen, pos, calcs, memo, tally
vars == <<scen, pos, calcs, memo, tally>>

Nothing == [k |-> "-", x |-> << >>, f |-> << >>]
Forgotten == [on |-> FALSE, z |-> "", p |-> "", cf |-> << >>]

Judge(e, evs, c0, c, m) ==
  LET x == FHexVec(c.x)
  IN  CASE Prop = "C01" -> P_C01(e, c0, c) [] Prop = "C02" -> P_C02(e, c0, c, m) [] Prop = "C03" -> P_C03(e, c0, c)
        [] Prop = "C04" -> P_C04(e, c0, c)
        [] Prop = "E01" -> P_E01(e, c0, c) [] Prop = "E02" -> P_E02(e, c0, c) [] Prop = "E03" -> P_E03(e, c0, c)
        [] Prop = "E04" -> P_E04(e, c0, c) [] Prop = "E05" -> P_E05(e, c0, c) [] Prop = "E06" -> P_E06(e, evs, x)
        [] Prop = "E07" -> P_E07(e, c0, c) [] Prop = "E08" -> P_E08(e, evs, x)
        [] Prop = "S01" -> P_S01(e, c0, c, m) [] Prop = "S02" -> P_S02(e, c0, c) [] Prop = "S03" -> P_S03(e, c0, c)
        [] Prop = "S04" -> P_S04(e, c0, c) [] Prop = "S05" -> P_S05(e, c0, c) [] Prop = "S06" -> P_S06(e, evs, x)
        [] Prop = "H01" -> P_H01(e, c0, c) [] Prop = "H02" -> P_H02(e, c0, c) [] Prop = "H03" -> P_H03(e, c0, c)
        [] Prop = "F01" -> P_F01(e, c0, c) [] Prop = "F03" -> P_F03(e, c0, c) [] Prop = "X01" -> P_X01(e, c0, c)

Init == /\ scen \in 1..Len(Trace)
        /\ pos = 0
        /\ calcs = << >>
        /\ memo = << >>
        /\ tally = << >>

Put(fn, h, v) == [g \in DOMAIN fn \union {h} |-> IF g = h THEN v ELSE fn[g]]
Drop(fn, h) == [g \in DOMAIN fn \ {h} |-> fn[g]]

\* TLC evaluates a LET definition of an action once for every use; bound variables are evaluated once.
Step(e) ==
  \E c0 \in {IF e.h \in DOMAIN calcs THEN calcs[e.h] ELSE Nothing} :
  \E c \in {IF e.f = << >> THEN c0 ELSE [k |-> e.k, x |-> IF e.xs = << >> THEN c0.x ELSE e.xs, f |-> e.f]} :
  \E m \in {IF e.h \in DOMAIN memo THEN memo[e.h] ELSE Forgotten} :
  \E obligations \in {Judge(e, Trace[scen].ev, c0, c, m)} :
  \E bad \in {Violated(obligations)} :
  \E labels \in {{r[1] : r \in obligations}} :
  \E count \in {[l \in labels \union DOMAIN tally |->
                   (IF l \in DOMAIN tally THEN tally[l] ELSE 0) + (IF l \in labels THEN 1 ELSE 0)]} :
     /\ IF bad = {} THEN TRUE
        ELSE PrintT("VIOL " \o ToJson([id |-> Trace[scen].id, pos |-> pos + 1, op |-> e.op, h |-> e.h, k |-> e.k, bad |-> bad]))
     /\ IF pos + 1 < Len(Trace[scen].ev) THEN TRUE ELSE PrintT("DONE " \o ToJson(<<Trace[scen].id, count>>))
     /\ calcs' = IF e.op = "free" THEN Drop(calcs, e.h)
                 ELSE IF e.op \in {"check", "sum", "norm", "note", "sym", "null", "on"} /\ e.h \notin DOMAIN calcs THEN calcs
                 ELSE Put(calcs, e.h, c)
     /\ memo' = CASE e.op = "free" -> Drop(memo, e.h)
                  [] e.op = "density" /\ e.fl = "" /\ e.ret = "ok" ->
                       Put(memo, e.h, [on |-> TRUE, z |-> e.f[Idx["z"]], p |-> c0.f[Idx["p"]], cf |-> e.cf])
                  [] e.op \in {"pressure", "mm", "note", "move"} -> Put(memo, e.h, [m EXCEPT !.cf = e.cf])
                  [] OTHER -> Put(memo, e.h, [Forgotten EXCEPT !.cf = e.cf])
     /\ tally' = count

Next == /\ pos < Len(Trace[scen].ev)
        /\ pos' = pos + 1
        /\ scen' = scen
        /\ Step(Trace[scen].ev[pos + 1])

Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").distinct = Events
=============================================================================
