SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    Lens = {0, 1, 2, 5, 17}
    Takes = {1000}
    Limits = {0, 1, 2, 3, 5, 15, 16, 30, 31, 32, 47, 60, 64, 100}
    Types = {0}
    MaxOps = 12
    MaxRefusals = 0
    GenFile = ""
    GenDepth = 0
INVARIANTS AtAnyTime AtRest Nothing Follows
CHECK_DEADLOCK FALSE
