SPECIFICATION Spec
CONSTANTS
  Menu = {"iput", "iget", "mput", "mtake", "mswap", "mget"}
  Len1 = 2
  Len2 = 2
  Len3 = 1
INVARIANTS MessagesPaired NackExact IvarOnce MvarOnce MailboxOnce NoMissedPair
CHECK_DEADLOCK FALSE
