SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops = {"eq", "ne", "gt", "ge", "lt", "le"}
  Leaves = {"x", "y", "1"}
  WithB = TRUE
  MaxCmps = 2
  MaxJoins = 1
  MaxStack = 2
  Exporting = TRUE
INVARIANTS Values Split Reads Nulls Swap Distribute
