SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq"}
  Leaves = {"x", "1"}
  WithB = TRUE
  MaxCmps = 4
  MaxJoins = 3
  MaxStack = 4
  Exporting = TRUE
INVARIANTS Values Split Reads Nulls Swap Distribute
