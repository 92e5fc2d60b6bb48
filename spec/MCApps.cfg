SPECIFICATION MCSpec
INVARIANTS RefusedMeans HelpMeans RowsMean WellMeans OrderFree
CHECK_DEADLOCK FALSE
