SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Fits = {0, 1, 2}
  MaxOps = 5
  Emit = TRUE
INVARIANTS Conserved TotalPreorder Emitted
CHECK_DEADLOCK FALSE
