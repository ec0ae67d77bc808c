SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq", "ne", "gt", "ge", "lt", "le"}
  Leaves = {"x", "y", "0", "1", "null"}
  WithB = TRUE
  MaxCmps = 1
  MaxJoins = 0
  MaxStack = 1
  Exporting = TRUE
INVARIANTS Values Split Reads Nulls Swap Distribute
