SPECIFICATION Spec
CONSTANTS
  Names = {"1", "2", "3"}
  Addresses = {"a", "b", "c", "0"}
  MaxHeld = 3
INVARIANTS HeapIsHeld NoLeak Distinct
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
