SPECIFICATION MCSpec
INVARIANT DataFromLast
PROPERTY Updates
PROPERTY AllIsAll
CHECK_DEADLOCK FALSE
CONSTANTS
  Configs <- MCConfigs
  Parts = {"top_surface", "b"}
