SPECIFICATION Spec
CONSTANTS NS = 3
          SC = 100000
          N = 20
INVARIANTS Good
CHECK_DEADLOCK FALSE
