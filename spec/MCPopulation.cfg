SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Genes = {1, 2, 3}
  FitOf <- FitTable
  MaxLen = 3
  MaxGen = 1
  Emit = TRUE
INVARIANTS MembersCanonical Described CountersFollow Emitted
CHECK_DEADLOCK FALSE
