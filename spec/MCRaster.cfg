SPECIFICATION MCSpec
INVARIANT Faithful
PROPERTY Steps
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  Paths = {"f"}
  Layouts <- MCLayouts
