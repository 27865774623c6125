SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxN = 5
  NGenes = 3
  MaxSteps = 1
  Emit = TRUE
INVARIANTS Sound Complete KeepsGenes DuplicateLoses Reversible Emitted
CHECK_DEADLOCK FALSE
