SPECIFICATION Spec
CONSTANTS
  Obj = {1, 2}
  Roots = {1, 2}
  G = 2
INVARIANTS NoDangling WeakOk Remembered
PROPERTIES FullExact WeakSafe
CHECK_DEADLOCK FALSE
