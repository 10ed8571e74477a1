SPECIFICATION Spec
INVARIANTS AsManyAsCells AllFold BelongsToOne NoOthers Emitted
CHECK_DEADLOCK FALSE
