SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxSets = 1
  MaxGens = 3
  Emit = TRUE
INVARIANTS OthersKeep Valid SizeRule WithinRange PlainIsConstant OneOfAHundred Emitted
CHECK_DEADLOCK FALSE
