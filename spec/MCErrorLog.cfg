SPECIFICATION MCSpec
INVARIANTS HoldsExactly SureIsPrefix
PROPERTY Steps
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {"h"}
  LogFiles = {"f", "g"}
