SPECIFICATION Spec
INVARIANTS CornersMean OrderMeans OptionsMean JudgeMeans
CHECK_DEADLOCK FALSE
