SPECIFICATION MCSpec
INVARIANTS AtMostOnce FinishedIsAll Progress Agrees
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes <- MCSizes
  Limits <- MCLimits
