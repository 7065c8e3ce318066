CONSTANTS QB = 15
SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
