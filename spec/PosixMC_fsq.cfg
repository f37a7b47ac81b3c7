CONSTANTS Kind = "fs" MaxIno = 5 MaxFd = 5 MaxDepth = 3
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY FailKeeps
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
