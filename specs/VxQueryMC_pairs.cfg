SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq", "lt"}
  Leaves = {"x", "1"}
  WithB = TRUE
  MaxCmps = 2
  MaxJoins = 1
  MaxUnary = 1
  MaxStack = 2
  PushAll = FALSE
  Exporting = TRUE
INVARIANTS Pushdown NeverLoses Kleene
