CONSTANTS
    Sends <- Two
    Cap = 2
    Move = 2
    Ratio = 1
    Direct = FALSE
    MayClose = TRUE
    Mistake = "none"
SPECIFICATION Spec
INVARIANTS TypeOK Conserved ResultsAreRight EndsAreRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
