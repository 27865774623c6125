SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Odd = 2
  MaxSets = 1
  Emit = TRUE
INVARIANTS OK AlwaysFine Emitted
PROPERTIES RefusedKeeps
CHECK_DEADLOCK FALSE
