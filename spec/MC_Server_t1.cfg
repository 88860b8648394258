SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    MaxWrites = 6
    MaxLaunches = 8
    GenFile = ""
    GenDepth = 0
INVARIANTS Kept Nothing Cluster OnlyGood
PROPERTY Refusals
CHECK_DEADLOCK FALSE
