SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  Foreign = 9
  Room = 4
  LengthFirst = FALSE
INVARIANTS Torn Whole Genuine
CHECK_DEADLOCK FALSE
