SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Algs = {"ga", "aga"}
  Cfgs = {1, 2, 3, 4}
  MaxRuns = 2
  MaxGen = 3
  Emit = TRUE
  Forgets = {}
INVARIANTS Alike AsConfigured Emitted
CHECK_DEADLOCK FALSE
