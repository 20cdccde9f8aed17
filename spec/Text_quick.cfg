CONSTANTS
  Scratch = 64
  Small = 22
  MaxPieces = 3
  MaxLen = 700
  Sizes = {0, 1, 2, 20, 21, 22, 23, 24, 44, 45, 46, 47, 48, 63, 64, 65, 66, 256}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Exact InBounds Fits PrintState
CHECK_DEADLOCK FALSE
