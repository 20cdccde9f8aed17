CONSTANTS
  N = 16
  MaxVer = 2
  Modes = {"borrow", "share"}
  TwoThreads = FALSE
SPECIFICATION TSpec
CONSTRAINT Far
INVARIANTS Alive OneObject SnapObjects
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
