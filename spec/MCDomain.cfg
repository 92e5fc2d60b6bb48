SPECIFICATION MCSpec
INVARIANTS ContainsMeans Stretch Owner SquashMeans Turned
CHECK_DEADLOCK FALSE
CONSTANTS
  Files <- MCFiles
  Crs <- MCCrs
  Handles = {}
  Models <- MCModels
  Mins <- MCMins
  Fine = 2
