SPECIFICATION Spec
CONSTANTS
    Procs = {1, 2}
    Segs = {1, 2}
    Layout = "iseg"
    KeepArchive = FALSE
INVARIANTS Exclusion Released
