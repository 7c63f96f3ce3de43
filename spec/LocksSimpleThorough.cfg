SPECIFICATION Spec
CONSTANTS
    Procs = {1, 2, 3}
    Segs = {1, 2}
    Layout = "simple"
    KeepArchive = FALSE
INVARIANTS Exclusion Released AllSeen
