CONSTANTS
  Graph <- Leaf
  Calls <- Mins
  Threads = 2
  PerThread = 2
  Design = "held"
  Exporting = TRUE
INIT Init
NEXT Next
INVARIANTS
  Conforms
  NothingForgotten
  OneWriter
CHECK_DEADLOCK TRUE
