SPECIFICATION MCSpec
INVARIANT InUse
PROPERTY Steps
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
