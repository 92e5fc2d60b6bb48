SPECIFICATION MCSpec
INVARIANTS ShareMeaning OpenIsReadable
PROPERTY Steps
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {"a", "b"}
  Paths = {"f", "new", "junk"}
  Contents <- MCContents
  Start <- MCStart
