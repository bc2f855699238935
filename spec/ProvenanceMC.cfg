SPECIFICATION Spec
CONSTANTS
  Policy = "all"
  Kind = "G"
  Dens = {"0", "a", "b", "est"}
INVARIANTS OneState MassFresh ZFresh FoundIsCurrent
PROPERTY Frame
VIEW View
CHECK_DEADLOCK FALSE
