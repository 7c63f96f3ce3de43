SPECIFICATION Spec
CONSTANTS
    Size = 2
    MaxLen = 3
    Readers = {1, 2, 3}
    Values = {1, 2}
INVARIANTS TypeOK Ordered Complete AllEnd
PROPERTIES Ends StopIsStop
