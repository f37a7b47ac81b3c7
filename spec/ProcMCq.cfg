SPECIFICATION Spec
CONSTANTS
 N = 2
 G = {0, 9, 15, 18, 19}
 K = 6
INVARIANTS OnceToParent Sane
CHECK_DEADLOCK FALSE
