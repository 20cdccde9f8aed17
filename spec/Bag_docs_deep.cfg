CONSTANTS
  F = {"alloc", "owned", "error", "sval", "serde", "seq"}
  InlineLens = 0
  SrcSet <- AllSrcs
  Defer = FALSE
  Depth = 2
  Emit = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P13b P17 P19 P20 P22 P25 P26 PrintState
