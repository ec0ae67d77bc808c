SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 2
  MaxChunks = 2
  Lens = {0, 2}
  PageLens = {0, 3}
  MaxCalls = 3
  Ks = {1, 9}
  FromAnywhere = TRUE
  Modes = {}
  Exporting = TRUE
INVARIANTS Accepted InOrder WholeArray Rejects NoSilence
PROPERTIES Terminates
