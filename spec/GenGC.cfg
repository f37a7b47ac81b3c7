SPECIFICATION Spec
CONSTANTS
  Obj = {1, 2, 3}
  Roots = {1}
  G = 2
INVARIANTS NoDangling WeakOk Remembered
PROPERTIES FullExact WeakSafe
CHECK_DEADLOCK FALSE
