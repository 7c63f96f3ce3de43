SPECIFICATION Spec
CONSTANTS
    Size = 1
    MaxLen = 2
    Readers = {1, 2, 3}
    Values = {1, 2}
INVARIANTS TypeOK Ordered Complete AllEnd
PROPERTIES Ends StopIsStop
