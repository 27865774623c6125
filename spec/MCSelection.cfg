SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxN = 6
  MaxK = 5
  MaxTries = 4
  Emit = TRUE
INVARIANTS DistinctRight AtMost NothingIff Emitted
CHECK_DEADLOCK FALSE
