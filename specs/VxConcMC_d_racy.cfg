CONSTANTS
  Graph <- Chunked1
  Calls <- Mins
  Threads = 2
  PerThread = 2
  Design = "racy"
  Exporting = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS
  Conforms
  NothingForgotten
  OneWriter
CHECK_DEADLOCK TRUE
