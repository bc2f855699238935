SPECIFICATION Spec
CONSTANTS
  Memory = "heap"
  Names = {1, 2}
  Threads = {0, 1}
CHECK_DEADLOCK FALSE
