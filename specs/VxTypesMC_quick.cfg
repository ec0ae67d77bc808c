INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Prims = {"u64", "f16"}
  Names = {"a"}
  MaxWidth = 2
  MaxDepth = 1
  Picks = {"lo", "hi"}
  Exts <- QExts
INVARIANTS NullLaw ValuesTyped ProjectLaw
