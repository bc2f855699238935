----------------------------- MODULE Interface -----------------------------
(* What a calculator shows to its user, what each operation reads and what it may write.

   A calculator is of kind "D" (DETAIL) or "G" (GERG-2008).  It holds a composition x and these fields:          *)
EXTENDS Integers, Sequences

FieldNames == <<"t", "p", "d", "z", "mm", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g",
                "jt", "kappa">>
NF == Len(FieldNames)
FieldSet == {FieldNames[i] : i \in 1..NF}
Idx == [nm \in FieldSet |-> CHOOSE i \in 1..NF : FieldNames[i] = nm]

Inputs == {"t", "p", "d"}
Derived == FieldSet \ Inputs
CalcOps == {"mm", "pressure", "density", "props"}
SetOps == {"setx", "raw", "rawx"}

(* Inputs ("x" is the composition) that the result of a calculation depends on, and nothing else. *)
Reads(op) == CASE op = "mm"       -> {"x"}
               [] op = "pressure" -> {"x", "t", "d"}
               [] op = "density"  -> {"x", "t", "p", "d"}
               [] op = "props"    -> {"x", "t", "d"}
               [] OTHER           -> {}

(* Fields that a calculation may change; mode is the density mode ("" for the others). *)
Writes(op, k, mode) ==
  CASE op = "mm"       -> {"mm"}
    [] op = "pressure" -> {"z"}
    [] op = "density"  -> IF k = "D" \/ mode = "0" THEN {"d", "z"} ELSE {"d"} \union Derived
    [] op = "props"    -> IF k = "D" THEN Derived \union {"p"} ELSE Derived
    [] OTHER           -> {}

DensityOutcomes == {"ok", "fail", "low"}
CompositionVerdicts == {"ok", "empty", "badsum"}

(* The C interface: codes, the order of the composition record and of the property record, and the functions. *)
CompositionCode == [ok |-> 0, empty |-> 1, badsum |-> 2]
DensityCode == [ok |-> 0, fail |-> 1, low |-> 2]
PropertyRecord == <<"d", "mm", "z", "dp_dd", "d2p_dd2", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa">>
Prefix(k) == IF k = "D" THEN "aga8_" ELSE "gerg_"
Functions == {"new", "free", "set_composition", "set_pressure", "get_pressure", "set_temperature", "get_temperature",
              "set_density", "get_density", "get_properties", "calculate_pressure", "calculate_molar_mass",
              "calculate_density", "calculate_properties"}
=============================================================================
