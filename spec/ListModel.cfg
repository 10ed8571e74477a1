SPECIFICATION Spec
INVARIANTS AllOne Emitted
PROPERTY Extends
CHECK_DEADLOCK FALSE
