SPECIFICATION Spec
CONSTANTS
  Menu = {"send", "recv", "sendP", "recvP", "chooseSR"}
  Len1 = 2
  Len2 = 2
  Len3 = 2
INVARIANTS MessagesPaired NackExact IvarOnce MvarOnce MailboxOnce NoMissedPair
CHECK_DEADLOCK FALSE
