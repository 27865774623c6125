SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Values = {0, 1, 3}
  MaxOps = 5
  Emit = TRUE
INVARIANTS IncrementalAgrees EmptyIffNoSamples Bounds SnapshotsFrozen Emitted
CHECK_DEADLOCK FALSE
