SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    MaxWrites = 40
    MaxLaunches = 6
    GenFile = ""
    GenDepth = 0
INVARIANTS Kept Nothing Cluster OnlyGood
CHECK_DEADLOCK FALSE
