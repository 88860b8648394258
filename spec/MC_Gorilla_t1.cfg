SPECIFICATION Spec
CONSTANTS
    Mistake = 0
    W = 4
    Classes <- Small
    LB = 1
    SB = 2
    Values = {0, 1, 6, 8, 12, 15}
    Starts = {0, 3}
INVARIANTS Lossless CutOff
CHECK_DEADLOCK FALSE
