SPECIFICATION Spec
CONSTANTS
  Storage = "own"
  Values = {1, 2, 3}
  Rounds = 3
PROPERTIES Independent Separate
CHECK_DEADLOCK FALSE
