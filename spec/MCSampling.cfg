SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  MaxN = 8
INVARIANTS PairLegal PairBijection RangeComplete PlaceCovered AnswersExist
CHECK_DEADLOCK FALSE
