SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  NGenes = 2
  MaxBefore = 2
  MaxNew = 3
  Emit = TRUE
INVARIANTS Right Refuses Emitted
CHECK_DEADLOCK FALSE
