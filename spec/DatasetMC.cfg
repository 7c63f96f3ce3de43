SPECIFICATION MCSpec
VIEW View
INVARIANTS NoDuplicates SummaryIsComplete
PROPERTIES Guarantees
CHECK_DEADLOCK FALSE
