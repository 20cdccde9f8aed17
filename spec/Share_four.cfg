CONSTANTS
  N = 4
  MaxVer = 2
  Modes = {"share"}
  TwoThreads = TRUE
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Alive OneObject SnapObjects PrintState
PROPERTIES Stable Live
CHECK_DEADLOCK FALSE
