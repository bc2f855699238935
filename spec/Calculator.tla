----------------------------- MODULE Calculator -----------------------------
(* A calculator as a state machine with symbolic numbers: what it is given, what it remembers between calculations, and
   from what each result was made.

   Compositions and temperatures are small integers; neighbours differ by 1 and stand for values that differ by very
   little.  0 is the value of a new calculator.  A result is recorded as what went into it, so "the result of the
   current inputs" is an equation between records, whatever the equation of state.

   Policy says when remembered terms are used again:
     "exact"      when computed from the very same composition and temperature
     "near"       also when computed from a neighbour
     "drifting"   as near, and the remembered inputs follow the current ones even when nothing is recomputed
     "forgetful"  as exact, but the temperature terms survive a change of composition
   Correct (the result is always made from the current inputs) holds for "exact" only.                            *)
EXTENDS Integers, Sequences, Interface
CONSTANTS Policy, Kind, Comps, Temps, Densities
VARIABLES x, t, d,        \* inputs
          xm, xc,         \* composition remembered, and the one that the composition terms were computed from
          tm, tc,         \* temperature remembered, and <<temperature, composition>> of the temperature terms
          out,            \* what the last result was made from
          op              \* the operation that led here
vars == <<x, t, d, xm, xc, tm, tc, out, op>>
inputs == <<x, t, d>>
memory == <<xm, xc, tm, tc>>

NoResult == << >>
Near(a, b) == a - b \in {-1, 0, 1}

Init == /\ x = 0 /\ t = 0 /\ d = 0
        /\ xm = 0 /\ xc = 0 /\ tm = 0 /\ tc = <<0, 0>>
        /\ out = NoResult /\ op = <<"new">>

SetX(v) == /\ x' = v /\ op' = <<"setx", v>> /\ out' = NoResult
           /\ UNCHANGED <<t, d>> /\ UNCHANGED memory
Reject  == /\ op' = <<"reject">> /\ out' = NoResult
           /\ UNCHANGED inputs /\ UNCHANGED memory
SetT(v) == /\ t' = v /\ op' = <<"t", v>> /\ out' = NoResult
           /\ UNCHANGED <<x, d>> /\ UNCHANGED memory
SetD(v) == /\ d' = v /\ op' = <<"d", v>> /\ out' = NoResult
           /\ UNCHANGED <<x, t>> /\ UNCHANGED memory

KeepX == IF Policy \in {"near", "drifting"} THEN Near(x, xm) ELSE x = xm
KeepT(recomputed) == /\ ~recomputed \/ Policy = "forgetful"
                     /\ IF Policy \in {"near", "drifting"} THEN Near(t, tm) ELSE t = tm

\* The terms of the equation of state are brought up to date, and the result is made from them.
Remember ==
  LET keepx == KeepX
      keept == KeepT(~keepx)
      nxc == IF keepx THEN xc ELSE x
      ntc == IF keept THEN tc ELSE <<t, nxc>>
  IN  /\ xc' = nxc
      /\ tc' = ntc
      /\ xm' = IF keepx /\ Policy # "drifting" THEN xm ELSE x
      /\ tm' = IF keept /\ Policy # "drifting" THEN tm ELSE t
      /\ out' = [x |-> nxc, t |-> ntc[1], tx |-> ntc[2]]
Pressure == /\ Remember /\ op' = <<"pressure">> /\ UNCHANGED inputs
Props    == /\ Remember /\ op' = <<"props">> /\ UNCHANGED inputs
MolarMass == /\ out' = NoResult /\ op' = <<"mm">> /\ UNCHANGED inputs /\ UNCHANGED memory
\* The search evaluates the equation of state any number of times at the current composition and temperature, then
\* stores a density; a pressure that is too low ends it before that.
Density == /\ Remember /\ op' = <<"density">> /\ d' \in Densities /\ UNCHANGED <<x, t>>
DensityLow == /\ d' = 0 /\ out' = NoResult /\ op' = <<"low">> /\ UNCHANGED <<x, t>> /\ UNCHANGED memory

Next == \/ \E v \in Comps : SetX(v)
        \/ \E v \in Temps : SetT(v)
        \/ \E v \in Densities : SetD(v)
        \/ Reject \/ Pressure \/ Props \/ MolarMass \/ Density \/ DensityLow
Spec == Init /\ [][Next]_vars

\* new calculators: temperature 0 and composition 0 are not inputs on which results are meaningful
Meaningful == x # 0 /\ t # 0
Correct == out # NoResult /\ Meaningful => out = [x |-> x, t |-> t, tx |-> x]
\* The remembered values are those that the terms were computed from.
MemoryConsistent == Policy = "exact" => xm = xc /\ tm = tc[1] /\ (tc[2] = xc \/ tm = 0)

\* Frame condition: calculations change none of their inputs, except density as far as Interface says.
Frame == [][op'[1] \in CalcOps \union {"low"} =>
              /\ x' = x /\ t' = t
              /\ (d' # d => "d" \in Writes(IF op'[1] = "low" THEN "density" ELSE op'[1], Kind, "0"))]_vars
=============================================================================
