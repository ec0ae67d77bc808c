INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxParts = 2
  MaxLen = 3
  Values = {0, 1, 2}
  Drops = 1
  Exporting = TRUE
INVARIANTS Sound Grouping
