SPECIFICATION Spec
CONSTANT SIGS = {"HUP", "INT", "QUIT", "USR1", "USR2", "PIPE", "ALRM", "TERM", "CHLD", "CONT", "TSTP", "TTIN", "TTOU", "URG", "VTALRM", "WINCH", "IO", "GC"}
CHECK_DEADLOCK FALSE
