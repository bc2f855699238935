SPECIFICATION Spec
CONSTANTS
  Memory = "heap"
  Names = {1, 2, 3}
  Threads = {0, 1}
INVARIANTS Fresh Returned
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
