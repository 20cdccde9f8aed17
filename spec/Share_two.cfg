CONSTANTS
  N = 2
  MaxVer = 2
  Modes = {"borrow", "share"}
  TwoThreads = TRUE
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Alive OneObject SnapObjects PrintState
PROPERTIES Stable Live
CHECK_DEADLOCK FALSE
