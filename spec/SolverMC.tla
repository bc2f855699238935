------------------------------ MODULE SolverMC ------------------------------
(* The control of the density search (operators Begin, After and Advance of DensitySolver) for every possible behaviour
   of the equation of state: in each iteration the volume may be in range or not, pressure and slope may be good or
   not, and the Newton step may be small or not (always not, for NaN).                                          *)
EXTENDS DensitySolver
VARIABLES kind, ctl, phase, evals, outcome, last, restarts
vars == <<kind, ctl, phase, evals, outcome, last, restarts>>

Init == /\ kind \in Kinds
        /\ ctl = Start
        /\ phase = "begin"
        /\ evals = 0
        /\ outcome = ""
        /\ last = ""
        /\ restarts = << >>

Choose == /\ phase = "begin"
          /\ \E inrange \in BOOLEAN : \E b \in {Begin(kind, ctl, inrange)} :
               IF b = "fail" THEN /\ phase' = "done" /\ outcome' = "fail" /\ last' = IF inrange THEN "in" ELSE "out"
                                  /\ UNCHANGED <<kind, ctl, evals, restarts>>
               ELSE /\ phase' = b /\ last' = b
                    /\ restarts' = IF b = "restart" THEN Append(restarts, RestartText[ctl.nfail + 1]) ELSE restarts
                    /\ UNCHANGED <<kind, ctl, evals, outcome>>
Evaluate == /\ phase \in {"go", "restart"}
            /\ evals' = evals + 1
            /\ \E good, small \in BOOLEAN : \E a \in {After(good, small)} :
                 /\ last' = a
                 /\ IF a = "found" THEN phase' = "done" /\ outcome' = "ok" /\ UNCHANGED ctl
                    ELSE phase' = "begin" /\ ctl' = Advance(ctl, phase = "restart") /\ UNCHANGED outcome
            /\ UNCHANGED <<kind, restarts>>
Next == Choose \/ Evaluate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == evals <= MaxIt(kind) /\ ctl.it <= MaxIt(kind) + 1 /\ ctl.nfail <= MaxRestarts(kind)
SuccessIsSmallStep == outcome = "ok" => last = "found"
\* giving up: out of range or due for a restart with none left, or out of iterations
FailureIsJustified == outcome = "fail" =>
    \/ ctl.it > MaxIt(kind)
    \/ ctl.nfail = MaxRestarts(kind) /\ (last = "out" \/ ForcedRestart(kind, ctl.it))
RestartsInOrder == restarts = SubSeq(RestartText, 1, Len(restarts))
                   /\ (kind = "D" => restarts = << >>)
Terminates == <>(phase = "done")
=============================================================================
