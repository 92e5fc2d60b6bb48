SPECIFICATION Spec
INVARIANTS WindowInside CellInWindow HistoryFree HoldsPoint
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes <- MCSizes
  Windows <- MCWindows
