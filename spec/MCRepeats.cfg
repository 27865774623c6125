SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Clients = {1, 2}
  Calls = {1, 2}
  MaxLen = 4
  MaxG = 1
  Hidden = FALSE
  Emit = TRUE
INVARIANTS Alike Legal Emitted
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
