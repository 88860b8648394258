SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  LValues = {"x"}
  Vals = {1, 2}
  Deltas = {1, 2}
  Size = 1
  MaxChunks = 3
  MaxWrites = 3
  MaxLabels = 2
  Kind = "tikv"
  MaxRestarts = 1
  Mistake = "none"
  GenFile = ""
  GenDepth = 0
VIEW View
CONSTRAINT Bound
INVARIANTS QueriesRefine IndexSound ChunksAligned StartsIncrease CellsInRange
PROPERTY Frozen
CHECK_DEADLOCK FALSE
