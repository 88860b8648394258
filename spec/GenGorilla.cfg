SPECIFICATION Spec
CONSTANTS
    W = 64
    Classes <- Real
    LB = 5
    SB = 6
CHECK_DEADLOCK FALSE
