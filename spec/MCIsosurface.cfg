SPECIFICATION MCSpec
INVARIANTS AnswerAccepted NothingElse Ordered OptionsMean
CHECK_DEADLOCK FALSE
CONSTANTS
  Files = Nothing
  Crs = Nothing
  Handles = Nothing
  Nothing = Nothing
