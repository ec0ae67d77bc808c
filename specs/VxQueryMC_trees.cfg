SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq"}
  Leaves = {"x", "1"}
  WithB = TRUE
  MaxCmps = 3
  MaxJoins = 2
  MaxUnary = 1
  MaxStack = 3
  PushAll = FALSE
  Exporting = TRUE
INVARIANTS Pushdown NeverLoses Kleene
