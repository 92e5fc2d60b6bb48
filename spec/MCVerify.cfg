SPECIFICATION Spec
INVARIANTS TilesMean SurfacesMean BlocksMean JudgeMeans SoundMeans
CHECK_DEADLOCK FALSE
