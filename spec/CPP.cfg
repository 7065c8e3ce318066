CONSTANTS H = 256 QB = 15
SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
