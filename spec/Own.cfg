SPECIFICATION Spec
CONSTANTS
  Vecs = {1, 2, 3}
  Mem = {1, 2, 3, 4, 5, 6}
  Bug = ""
INVARIANTS OneOwner NoLeak NoMisuse AtRest
CHECK_DEADLOCK FALSE
