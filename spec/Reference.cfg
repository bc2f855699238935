SPECIFICATION Spec
CONSTANT Equations = {"D", "G"}
INVARIANT FactsHold
CHECK_DEADLOCK FALSE
