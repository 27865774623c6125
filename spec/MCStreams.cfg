SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxW = 2
  MaxNeed = 2
  MaxGens = 3
  PerGeneration = FALSE
  Emit = TRUE
INVARIANTS Exclusive NotInPool Bounded Legal NeverAgain Emitted
PROPERTIES GoesOn NeverRewound
CHECK_DEADLOCK FALSE
