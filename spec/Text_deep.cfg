CONSTANTS
  Scratch = 64
  Small = 22
  MaxPieces = 4
  MaxLen = 700
  Sizes = {0, 1, 2, 3, 10, 20, 21, 22, 23, 24, 41, 42, 43, 44, 45, 46, 47, 48, 49, 61, 62, 63, 64, 65, 66, 67, 127, 128, 129, 255, 256, 257}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Exact InBounds Fits PrintState
CHECK_DEADLOCK FALSE
