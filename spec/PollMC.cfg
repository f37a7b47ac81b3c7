SPECIFICATION Spec
CONSTANTS Pipes = {1, 2}
 Cap = 2
 MaxItems = 2
INVARIANT Sound
PROPERTY Stays
CHECK_DEADLOCK FALSE
