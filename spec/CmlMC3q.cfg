SPECIFICATION Spec
CONSTANTS
  Menu = {"iput", "iget", "mput", "mtake", "mswap", "bsend", "brecv"}
  Len1 = 2
  Len2 = 1
  Len3 = 1
INVARIANTS MessagesPaired NackExact IvarOnce MvarOnce MailboxOnce NoMissedPair
CHECK_DEADLOCK FALSE
