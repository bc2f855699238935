SPECIFICATION Spec
CONSTANTS
  Storage = "own"
  Calcs = {1, 2}
  Values = {1, 2}
  Threads = {0, 1}
CHECK_DEADLOCK FALSE
