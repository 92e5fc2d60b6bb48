SPECIFICATION MCSpec
INVARIANTS AllOrNothing FirstAlone
PROPERTY Steps
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
