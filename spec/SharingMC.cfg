SPECIFICATION Spec
CONSTANTS
  Storage = "own"
  Calcs = {1, 2, 3}
  Values = {1, 2, 3}
  Threads = {0, 1, 2}
INVARIANT Correct
CHECK_DEADLOCK FALSE
