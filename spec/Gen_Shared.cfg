SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    Chunks = {1, 2, 3}
    Suffixes = {1, 2}
    MaxIdents = 10
    MaxWrites = 30
    GenFile = ""
    GenDepth = 0
INVARIANTS Mine Found Distinct
CHECK_DEADLOCK FALSE
