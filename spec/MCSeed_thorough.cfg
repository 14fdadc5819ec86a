SPECIFICATION Spec
CONSTANTS
  Numbers = 5
  Components = {m, p, q}
  Seeds = {1, 2}
  MaxOps = 6
INVARIANTS Reproducible OwnStreams
CHECK_DEADLOCK FALSE
