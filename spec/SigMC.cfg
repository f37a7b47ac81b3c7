SPECIFICATION Spec
CONSTANTS SIGS = {"USR1", "HUP", "GC"} MaxN = 3 MaxM = 3
INVARIANTS Counts Held
CHECK_DEADLOCK FALSE
