CONSTANTS Kind = "lk" MaxIno = 3 MaxFd = 5 MaxDepth = 5
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY FailKeeps
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
