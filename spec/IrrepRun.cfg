SPECIFICATION Spec
INVARIANTS TypeOK GapsOrdered
CHECK_DEADLOCK FALSE
