SPECIFICATION Spec
CONSTANTS FirstYear = 1999 LastYear = 2029
INVARIANTS Closed Round Changes
CHECK_DEADLOCK FALSE
