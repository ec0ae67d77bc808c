CONSTANTS
  Graph <- Shared
  Calls <- Computes
  Threads = 2
  PerThread = 1
  Design = "held"
  Exporting = TRUE
INIT Init
NEXT Next
INVARIANTS
  Conforms
  NothingForgotten
  OneWriter
CHECK_DEADLOCK TRUE
