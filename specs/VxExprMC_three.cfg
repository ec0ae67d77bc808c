SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq"}
  Leaves = {"x", "1"}
  WithB = TRUE
  MaxCmps = 3
  MaxJoins = 2
  MaxStack = 3
  Exporting = TRUE
INVARIANTS Values Split Reads Nulls Swap Distribute
