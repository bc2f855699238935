SPECIFICATION Spec
CONSTANTS
  Policy = "exact"
  Kind = "G"
  Comps = {1, 2, 9}
  Temps = {1, 2, 9}
  Densities = {0, 1}
INVARIANTS Correct MemoryConsistent
PROPERTY Frame
CHECK_DEADLOCK FALSE
