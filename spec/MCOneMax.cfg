SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxL = 4
  MaxSteps = 2
  Emit = TRUE
INVARIANTS SameLength NothingFromNothing Measured Inherited SmallStep Emitted
CHECK_DEADLOCK FALSE
