SPECIFICATION Spec
INVARIANTS MissingWhereNotRecorded AsRecorded OrderIsIrrelevant
PROPERTY OtherPointsUntouched
CHECK_DEADLOCK FALSE
