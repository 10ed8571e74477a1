SPECIFICATION Spec
INVARIANTS AsWritten NoticedOrHarmless Emitted
CHECK_DEADLOCK FALSE
