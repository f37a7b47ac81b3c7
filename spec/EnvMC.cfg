SPECIFICATION Spec
CONSTANTS Ids = {"0", "1", "2", "3"}  Words = {"a", "@SMLx", "@SMLcmdname=z", "@SM"}  EnvWords = {"A=1", "A=2", "AB=3", "A", "=4", "A=="}  MaxArgs = 3
INVARIANT Inv
PROPERTY Dropped
CHECK_DEADLOCK FALSE
