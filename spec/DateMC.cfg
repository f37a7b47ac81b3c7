SPECIFICATION Spec
CONSTANTS FirstYear = 1970 LastYear = 2554
INVARIANTS Closed Round Changes
CHECK_DEADLOCK FALSE
