SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq", "ne", "gt", "ge", "lt", "le"}
  Leaves = {"x", "y", "0", "1"}
  WithB = TRUE
  MaxCmps = 1
  MaxJoins = 0
  MaxUnary = 1
  MaxStack = 1
  PushAll = FALSE
  Exporting = TRUE
INVARIANTS Pushdown NeverLoses Kleene
