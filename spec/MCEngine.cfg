SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Modes = {"pop", "ind", "rand"}
  Firsts = {1, 3}
  Sizes = {1, 3}
  MaxGens = 2
  InitActs = {0, 1}
  EliteActs = {0, 1, 3}
  GenActs = {0, 2}
  RepActs = {0, 1, 2}
  Fresh = {20, 23}
  Emit = TRUE
  Lapse = {}
INVARIANTS NeverEmpty BestStays SizeRule Configured Emitted
CHECK_DEADLOCK FALSE
