SPECIFICATION Spec
INVARIANT Safe
CONSTANTS
    Items = {"a", "b", "c", "d"}
    Without = "-"
CHECK_DEADLOCK FALSE
