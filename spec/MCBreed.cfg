SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  NGenes = 3
  MaxFit = 1
  MaxMem = 2
  Emit = TRUE
INVARIANTS Piped Survived NeverWorse Refuses Emitted
CHECK_DEADLOCK FALSE
