SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxGen = 3
  Ints = {0, 1, 2}
  Emit = TRUE
INVARIANTS Inside Accepted AtStart Even Full Same Emitted
PROPERTIES Stays
CHECK_DEADLOCK FALSE
