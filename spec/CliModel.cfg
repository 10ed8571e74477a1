SPECIFICATION Spec
INVARIANTS FileCounts CommandCounts AnyPlace LabelsNeedTheCell NoResultsWithoutCalculation Emitted
PROPERTY OnlyItself
CHECK_DEADLOCK FALSE
