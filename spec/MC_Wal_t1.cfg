SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    Lens = {0, 1, 3}
    Takes = {1, 9}
    Limits = {0, 1, 2, 3, 15, 16, 31, 46}
    Types = {0}
    MaxOps = 5
    MaxRefusals = 1
    GenFile = ""
    GenDepth = 0
INVARIANTS AtAnyTime AtRest Nothing Follows
CHECK_DEADLOCK FALSE
