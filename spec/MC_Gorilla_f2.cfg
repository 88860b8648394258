SPECIFICATION Spec
CONSTANTS
    Mistake = 2
    W = 4
    Classes <- Small
    LB = 1
    SB = 2
    Values = {0, 6, 15}
    Starts = {9}
INVARIANTS Lossless CutOff
CHECK_DEADLOCK FALSE
