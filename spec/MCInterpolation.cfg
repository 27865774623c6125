SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxD = 20
  Dens = {1, 2, 3, 8, 10, 16, 100}
  Los = {0, 1, 7}
  Emit = TRUE
INVARIANTS Within AtTheEnds Complete Emitted
PROPERTIES NeverFalls
CHECK_DEADLOCK FALSE
