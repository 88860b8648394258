SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  LValues = {"x", "y"}
  Vals = {1, 2}
  Deltas = {1, 3, 4, 7}
  Size = 3
  MaxChunks = 5
  MaxWrites = 12
  MaxLabels = 2
  Kind = "sled"
  MaxRestarts = 1
  Mistake = "none"
  GenFile = ""
  GenDepth = 0
VIEW View
CONSTRAINT Bound
INVARIANTS QueriesRefine IndexSound ChunksAligned StartsIncrease CellsInRange
PROPERTY Frozen
CHECK_DEADLOCK FALSE
