SPECIFICATION Spec
CONSTANTS MaxB = 4  Seeds = {1}  Names = {"a", "b"}
INVARIANTS Conserved Partners Determined
CHECK_DEADLOCK FALSE
