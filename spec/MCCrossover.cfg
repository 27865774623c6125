SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxN = 5
  Emit = TRUE
  Ops = {"ox", "pmx", "spx", "cx", "erx", "scx", "gpx"}
INVARIANTS Ends Permutation Described Partitioned CXPlaces Emitted
CHECK_DEADLOCK TRUE
