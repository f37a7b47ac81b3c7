SPECIFICATION Spec
CONSTANTS
  Menu = {"send", "recv", "chooseSR", "nackR", "nackA"}
  Len1 = 2
  Len2 = 1
  Len3 = 1
INVARIANTS MessagesPaired NackExact IvarOnce MvarOnce MailboxOnce NoMissedPair
CHECK_DEADLOCK FALSE
