SPECIFICATION Spec
INVARIANT Safe
CONSTANTS
    Items = {"a", "b", "c"}
    Without = "-"
CHECK_DEADLOCK FALSE
