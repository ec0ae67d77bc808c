SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 2
  MaxChunks = 2
  Lens = {2}
  PageLens = {3}
  MaxCalls = 3
  Ks = {1, 9}
  FromAnywhere = FALSE
  Modes = {"eof", "part", "err", "mark"}
  Exporting = TRUE
INVARIANTS Accepted InOrder WholeArray Rejects NoSilence
PROPERTIES Terminates
