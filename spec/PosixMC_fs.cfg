CONSTANTS Kind = "fs" MaxIno = 5 MaxFd = 5 MaxDepth = 4
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY FailKeeps
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
