SPECIFICATION Spec
CONSTANTS MaxB = 2  Seeds = {1}  Names = {"a"}
INVARIANTS Conserved Partners Determined
CHECK_DEADLOCK FALSE
