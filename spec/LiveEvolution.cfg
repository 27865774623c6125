SPECIFICATION FairSpec
CONSTANTS
  Prop = "ALL"
  NGenes = 3
  FitOf <- FitA
  BadOf <- BadA
  Ovrs = {0}
  Sizes = {1, 2}
  Elites0 = {0, 1}
  CrossRates = {1000}
  MutRates = {0}
  Algs = {"ga", "aga"}
  Modes = {"pop"}
  MaxIn = 2
  MaxGens = 1
  HookActs = {0}
  Workers = 2
  Emit = FALSE
PROPERTY RunEnds
CHECK_DEADLOCK TRUE
