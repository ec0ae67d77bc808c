CONSTANTS
  Graph <- Twice
  Calls <- Mins
  Threads = 3
  PerThread = 2
  Design = "held"
  Exporting = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS
  Conforms
  NothingForgotten
  OneWriter
CHECK_DEADLOCK TRUE
