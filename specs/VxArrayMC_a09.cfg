INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Values = {0,1}
  Nulls = TRUE
  SortedOnly = FALSE
  Pre = {"slice","ipc","chunk"}
  Last = {"stat"}
  Depth = 2
  MaxTake = 2
  MaxChunks = 3
  Exporting = TRUE
INVARIANTS Laws
