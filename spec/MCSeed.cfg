SPECIFICATION Spec
CONSTANTS
  Numbers = 5
  Components = {m, p}
  Seeds = {1, 2}
  MaxOps = 5
INVARIANTS Reproducible OwnStreams
CHECK_DEADLOCK FALSE
