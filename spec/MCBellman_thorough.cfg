SPECIFICATION Spec
CONSTANTS NS = 3
          REW = {0, 3}
          SC = 1024
INVARIANTS Optimal Greedy Accepts Rejects
CHECK_DEADLOCK FALSE
