INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Prims = {"u8", "f16"}
  Names = {"a"}
  MaxWidth = 2
  MaxDepth = 2
  Picks = {"hi"}
  Exts <- QExts
INVARIANTS NullLaw ValuesTyped ProjectLaw
