SPECIFICATION Spec
CONSTANTS Years = {1999, 2000, 2007, 2008}
INVARIANTS Contained Partition NoGaps DaysOk
CHECK_DEADLOCK FALSE
