SPECIFICATION Spec
CONSTANTS
    W = 64
    Classes <- Real
    LB = 5
    SB = 6
VIEW View
POSTCONDITION ReadAll
CHECK_DEADLOCK FALSE
