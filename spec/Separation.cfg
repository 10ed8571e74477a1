SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT KeyLengths
CHECK_DEADLOCK FALSE
