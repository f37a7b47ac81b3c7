SPECIFICATION Spec
CONSTANTS
 N = 3
 G = {0, 9, 15, 18, 19}
 K = 7
INVARIANTS OnceToParent Sane
CHECK_DEADLOCK FALSE
