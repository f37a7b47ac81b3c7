CONSTANTS Kind = "io" MaxIno = 4 MaxFd = 6 MaxDepth = 6
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY FailKeeps
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
