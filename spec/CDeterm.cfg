SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Functional
CHECK_DEADLOCK FALSE
