SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    Chunks = {1, 2}
    Suffixes = {1, 2}
    MaxIdents = 5
    MaxWrites = 3
    GenFile = ""
    GenDepth = 0
INVARIANTS Mine Found Distinct
CHECK_DEADLOCK FALSE
