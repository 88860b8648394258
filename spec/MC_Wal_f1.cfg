SPECIFICATION Spec
CONSTANTS
    Mistake = 1
    Lens = {0, 1}
    Takes = {1, 9}
    Limits = {0, 1, 2, 16, 31, 46}
    Types = {0}
    MaxOps = 4
    MaxRefusals = 1
    GenFile = ""
    GenDepth = 0
INVARIANTS AtAnyTime AtRest Nothing Follows
CHECK_DEADLOCK FALSE
