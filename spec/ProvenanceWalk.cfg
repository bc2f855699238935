SPECIFICATION Spec
CONSTANTS
  Policy = "all"
  Kind = "G"
  Dens = {"a", "est"}
VIEW View
CHECK_DEADLOCK FALSE
