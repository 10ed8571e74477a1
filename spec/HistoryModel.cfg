SPECIFICATION Spec
INVARIANTS OnlyThese Twice Emitted
PROPERTIES Queries Kept
CHECK_DEADLOCK FALSE
