SPECIFICATION Spec
INVARIANTS AtGridPoints Bounded SamePlace Levels Surfaces
CHECK_DEADLOCK FALSE
CONSTANTS Configs <- MCConfigs
