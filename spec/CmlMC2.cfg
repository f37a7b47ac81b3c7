SPECIFICATION Spec
CONSTANTS
  Menu = {"send", "recv", "send2", "chooseSR", "nackR", "nackA"}
  Len1 = 2
  Len2 = 2
  Len3 = 1
INVARIANTS MessagesPaired NackExact IvarOnce MvarOnce MailboxOnce NoMissedPair
CHECK_DEADLOCK FALSE
