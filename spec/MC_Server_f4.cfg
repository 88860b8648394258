SPECIFICATION Spec
CONSTANTS
    Mistake = 4
    MaxWrites = 3
    MaxLaunches = 4
    GenFile = ""
    GenDepth = 0
INVARIANTS Kept Nothing Cluster OnlyGood
PROPERTY Refusals
CHECK_DEADLOCK FALSE
