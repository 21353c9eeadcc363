SPECIFICATION GSpec
CONSTANT MaxRecords = 5
INVARIANTS Counts Rehashes Rebuilds WholeBatches Complete Reported OnlyDue NeverPastBad Accuracy NotBoth NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
