SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  LValues = {"x"}
  Vals = {1, 2}
  Deltas = {1}
  Size = 2
  MaxChunks = 2
  MaxWrites = 3
  MaxLabels = 2
  Kind = "sled"
  MaxRestarts = 1
  Mistake = "oldest"
  GenFile = ""
  GenDepth = 0
VIEW View
CONSTRAINT Bound
INVARIANTS QueriesRefine IndexSound ChunksAligned StartsIncrease CellsInRange
PROPERTY Frozen
CHECK_DEADLOCK FALSE
