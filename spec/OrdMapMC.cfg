SPECIFICATION Spec
CONSTANTS Keys = {1,2,3}
 Vals0 = {0,1}
 NSlots = 2
INVARIANT Laws
PROPERTY Persistent
VIEW View
CHECK_DEADLOCK FALSE
