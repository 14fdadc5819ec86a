SPECIFICATION Spec
CONSTANTS NS = 2
          SC = 100000
          N = 20
INVARIANTS Good
CHECK_DEADLOCK FALSE
