SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  NGenes = 7
  FitOf <- FitC
  BadOf <- BadC
  Ovrs = {0, 1}
  Sizes = {1, 2, 3, 5}
  Elites0 = {0, 1, 2}
  CrossRates = {0, 1000}
  MutRates = {0, 1000}
  Algs = {"ga"}
  Modes = {"pop"}
  MaxIn = 4
  MaxGens = 3
  HookActs = {0}
  Workers = 2
  Emit = TRUE
INVARIANTS AllValid Counted EliteKept ElitesInside FullSize BestReturned BredFine RatesInside NeverInvented Emitted
CHECK_DEADLOCK FALSE
