SPECIFICATION Spec
CONSTANTS SIGS = {"USR1", "HUP", "GC"} MaxN = 2 MaxM = 2
INVARIANTS Counts Held
CHECK_DEADLOCK FALSE
