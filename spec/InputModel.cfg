SPECIFICATION Spec
INVARIANTS BaseIsValid ChangedAsNoted HasACause Emitted
PROPERTY OnlyByItsAttribute
CHECK_DEADLOCK FALSE
