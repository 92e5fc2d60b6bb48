SPECIFICATION MCSpec
INVARIANTS RightCell MissingExactly Bounded AtGridPoints Linear Seamless
CHECK_DEADLOCK FALSE
CONSTANTS
  Axes <- MCAxes
  SideAxes <- MCSide
  DownAxes <- MCDown
  Hashes <- MCHashes
  Gaps <- MCGaps
  Fine = 2
